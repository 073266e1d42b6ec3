------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Months, days and hours.  A calendar is a sequence of month lengths in   *)
(* days; simulations go on over several years of the same calendar.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Year365 == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
Year366 == <<31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>

\* month of the year of simulated month i = 1, 2, ...
OfYear(cal, i) == ((i - 1) % Len(cal)) + 1
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
DaysPerYear(cal) == SumTo(cal, Len(cal))
\* days before simulated month i
DaysBefore(cal, i) == ((i - 1) \div Len(cal)) * DaysPerYear(cal) +
                      SumTo(cal, (i - 1) % Len(cal))
DaysIn(cal, i) == cal[OfYear(cal, i)]
=============================================================================
