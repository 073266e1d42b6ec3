------------------------------ MODULE MC_Loads ------------------------------
EXTENDS Loads
CONSTANTS Cal, Hpd, Top
N == DaysPerYear(Cal) * Hpd
Init == \E loads \in [1..N -> -Top..Top] : LInit(loads, Cal, Hpd)
Spec == Init /\ [][DayStep \/ MonthStep]_lvars
C1 == <<2, 1, 2>>
C2 == <<1, 2>>
=============================================================================
