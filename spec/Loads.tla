------------------------------- MODULE Loads -------------------------------
(***************************************************************************)
(* Monthly figures of a signed hourly load (C13), one day at a time.       *)
(* Direction 1 is rejection (negative loads), 2 is extraction.             *)
(***************************************************************************)
EXTENDS Calendar, SequencesExt, FiniteSets

VARIABLES x,      \* signed load of every hour of the year
          cal,    \* month lengths in days
          hpd,    \* hours in a day
          m, day, \* month and day of the month reached, day = 0 before it
          tot, pk, pday  \* figures of the month so far, per direction
lvars == <<x, cal, hpd, m, day, tot, pk, pday>>

Part(v, k) == IF k = 1 THEN (IF v < 0 THEN -v ELSE 0)
              ELSE (IF v > 0 THEN v ELSE 0)
Dirs == {1, 2}
None == [k \in Dirs |-> 0]

LInit(loads, c, h) == /\ x = loads /\ cal = c /\ hpd = h
                      /\ m = 1 /\ day = 0
                      /\ tot = None /\ pk = None /\ pday = None

\* index of the hour before the first of day d of month i
DayStart(i, d) == (DaysBefore(cal, i) + d - 1) * hpd
DayLoads(i, d) == [h \in 1..hpd |-> x[DayStart(i, d) + h]]
Larger(a, b) == IF b > a THEN b ELSE a

DayStep ==
    /\ m <= Len(cal) /\ day < cal[m]
    /\ day' = day + 1
    /\ LET L == DayLoads(m, day + 1)
           P == [k \in Dirs |-> FoldLeft(LAMBDA a, v : Larger(a, Part(v, k)),
                                         0, L)]
       IN  /\ tot' = [k \in Dirs |-> FoldLeft(LAMBDA a, v : a + Part(v, k),
                                              tot[k], L)]
           \* the first hour of the peak counts
           /\ pday' = [k \in Dirs |-> IF P[k] > pk[k] THEN day + 1 ELSE pday[k]]
           /\ pk' = [k \in Dirs |-> Larger(pk[k], P[k])]
    /\ UNCHANGED <<x, cal, hpd, m>>
MonthDone == m <= Len(cal) /\ day = cal[m]
MonthStep == /\ MonthDone
             /\ m' = m + 1 /\ day' = 0
             /\ tot' = None /\ pk' = None /\ pday' = None
             /\ UNCHANGED <<x, cal, hpd>>

(* The peak day and the day after it, around the year end if need be *)
Hours == Len(x)
TwoDay(k) == [h \in 1..(2 * hpd) |->
    Part(x[((DayStart(m, pday[k]) + h - 1) % Hours) + 1], k)]

(* Guarantees *)
MonthHours == {DayStart(m, 1) + h : h \in 1..(day * hpd)}
NetIsLoad == tot[2] - tot[1] =
    FoldLeft(+, 0, [h \in 1..(day * hpd) |-> x[DayStart(m, 1) + h]])
PeakBounds == \A k \in Dirs : \A h \in MonthHours : Part(x[h], k) <= pk[k]
PeakDayHasPeak == \A k \in Dirs :
    IF pk[k] = 0 THEN pday[k] = 0
    ELSE /\ \E h \in 1..hpd : Part(x[DayStart(m, pday[k]) + h], k) = pk[k]
         /\ \A h \in MonthHours : h <= DayStart(m, pday[k]) =>
                Part(x[h], k) < pk[k]
TwoDayHasPeak == MonthDone => \A k \in Dirs : pday[k] > 0 =>
    /\ \E h \in 1..hpd : TwoDay(k)[h] = pk[k]
    /\ \A h \in 1..hpd : pday[k] < cal[m] =>
         TwoDay(k)[h + hpd] = Part(x[DayStart(m, pday[k] + 1) + h], k)
AverageBelowPeak == MonthDone => \A k \in Dirs : tot[k] <= pk[k] * day * hpd
=============================================================================
