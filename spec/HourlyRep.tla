----------------------------- MODULE HourlyRep ------------------------------
(***************************************************************************)
(* The synthetic hourly year (C27): in each month the average, and a block *)
(* of D hours at the peak on the peak day around its noon.                 *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets

\* first hour (from 0, in the month) of a block of D hours on day pday of a
\* month of n hours: the middle of the block is within an hour of noon unless
\* the month is too near
Noon(pday, hpd) == (pday - 1) * hpd + hpd \div 2
Between(v, lo, hi) == IF v > hi THEN hi ELSE IF v < lo THEN lo ELSE v
Starts(pday, hpd, D, n) ==
    {Between(b, 0, n - D) :
       b \in {c \in (Noon(pday, hpd) - D)..(Noon(pday, hpd) + 1) :
                2 * c + D - 2 * Noon(pday, hpd) \in -2..2}}
\* the value of hour h (from 0) is "peak" or "average"
Kind(h, start, D) == IF h >= start /\ h < start + D THEN "peak" ELSE "average"
\* a duration in millionths of an hour, rounded (a half may go either way)
RoundedHours(d) ==
    LET q == d \div 1000000 f == d % 1000000 IN
    IF f = 500000 THEN {q, q + 1} ELSE IF f < 500000 THEN {q} ELSE {q + 1}

(* Construction of a year, month by month *)
VARIABLES cal, hpd, blocks, mo, year
rvars == <<cal, hpd, blocks, mo, year>>
RInit(c, h, b) == cal = c /\ hpd = h /\ blocks = b /\ mo = 1 /\ year = <<>>
MonthRep(st, D, n) == [h \in 1..n |-> Kind(h - 1, st, D)]
AddMonth == /\ mo <= Len(cal)
            /\ LET n == cal[mo] * hpd IN
               \E st \in Starts(blocks[mo].pday, hpd, blocks[mo].D, n) :
                  year' = year \o MonthRep(st, blocks[mo].D, n)
            /\ mo' = mo + 1 /\ UNCHANGED <<cal, hpd, blocks>>
Done == mo > Len(cal)
OneYear == Done => Len(year) = DaysPerYear(cal) * hpd
PeakHours(m) == Cardinality({h \in 1..(cal[m] * hpd) :
                    year[DaysBefore(cal, m) * hpd + h] = "peak"})
PeaksStated == Done => \A m \in DOMAIN cal : PeakHours(m) = blocks[m].D
\* short blocks stay on their day
OnTheDay == Done => \A m \in DOMAIN cal : blocks[m].D <= hpd \div 2 =>
    \A h \in 1..(cal[m] * hpd) : year[DaysBefore(cal, m) * hpd + h] = "peak" =>
        (h - 1) \div hpd = blocks[m].pday - 1
=============================================================================
