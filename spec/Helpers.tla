------------------------------ MODULE Helpers ------------------------------
(***************************************************************************)
(* Calendar, geometry and statistics helpers (C32).                        *)
(*                                                                         *)
(* Two walks: from month to month of any number of years, keeping the      *)
(* first and the last hour of the month reached, and round the corners of  *)
(* a polygon, keeping twice the signed area swept from the origin.         *)
(***************************************************************************)
EXTENDS Calendar, SequencesExt, FiniteSets

VARIABLES cal, month, first, last,   \* walk through the months
          poly, corner, swept        \* walk round the polygon
calvars == <<cal, month, first, last>>
polyvars == <<poly, corner, swept>>

Abs(i) == IF i < 0 THEN -i ELSE i

(* Months: the first hour is 1 *)
CInit(c) == cal = c /\ month = 1 /\ first = 1 /\ last = 24 * c[1]
NextMonth == /\ month' = month + 1
             /\ first' = last + 1
             /\ last' = last + 24 * DaysIn(cal, month + 1)
             /\ UNCHANGED cal

(* Polygons *)
PInit(p) == poly = p /\ corner = 0 /\ swept = 0
After(k) == IF k = Len(poly) THEN 1 ELSE k + 1
NextCorner ==
    /\ corner < Len(poly)
    /\ corner' = corner + 1
    /\ LET a == poly[corner + 1]  b == poly[After(corner + 1)] IN
       swept' = swept + a[1] * b[2] - b[1] * a[2]
    /\ UNCHANGED poly
Round == corner = Len(poly)
TwiceArea == Abs(swept)

(* Rows: boreholes at a spacing b along a length l *)
Reaching(l, b) == ((l + b - 1) \div b) + 1     \* the fewest that reach its end
Within(l, b) == (l \div b) + 1                 \* the most that do not pass it

(* A domain by number of boreholes; candidates with as many keep their order *)
RECURSIVE Insert(_, _)
Insert(s, e) == IF s = <<>> \/ s[Len(s)][1] <= e[1] THEN Append(s, e)
                ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), e), s[Len(s)])
Ordered(s) == FoldLeft(Insert, <<>>, s)

(* Differences along a domain; it is unimodal if none is positive *)
Steps(s) == [k \in 1..(Len(s) - 1) |-> s[k + 1] - s[k]]
Unimodal(s) == \A k \in DOMAIN Steps(s) : Steps(s)[k] <= 0

(* A rectangle from its origin, round by its longest way along x *)
Rectangle(o, lx, ly) == << o, <<o[1] + lx, o[2]>>, <<o[1] + lx, o[2] + ly>>,
                           <<o[1], o[2] + ly>> >>

(* A bracket of signs: one of each, neither of them none *)
Sign(v) == IF v > 0 THEN 1 ELSE -1
Bracket(a, b) == a * b < 0

(* Guarantees *)
MonthHours == last - first + 1 = 24 * DaysIn(cal, month)
Contiguous == first = 24 * DaysBefore(cal, month) + 1
EveryYear == month > Len(cal) =>
    first = 24 * DaysPerYear(cal) + 24 * DaysBefore(cal, month - Len(cal)) + 1
=============================================================================
