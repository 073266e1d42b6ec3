----------------------------- MODULE MC_Helpers -----------------------------
(* Calendars of a few months; every triangle and quadrilateral of a small  *)
(* grid, with the area decided by counting lattice points (Pick).          *)
EXTENDS Helpers
CONSTANTS Side, Months, Row
Grid == (0..Side) \X (0..Side)
Tri == {p \in [1..3 -> Grid] : TRUE}
Quad == {<<a, b, c, d>> : a \in {<<0, 0>>, <<1, 0>>}, b \in Grid, c \in Grid, d \in Grid}
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Init == /\ \E p \in Tri \cup Quad : PInit(p)
        /\ \E c \in [1..2 -> {28, 31}] : CInit(c)
Next == \/ NextCorner /\ UNCHANGED calvars
        \/ Round /\ month < Months /\ NextMonth /\ UNCHANGED polyvars
Spec == Init /\ [][Next]_<<calvars, polyvars>>
\* lattice points of a triangle: on an edge or inside
On(a, b, p) == /\ Cross(a, b, p) = 0
               /\ (p[1] - a[1]) * (p[1] - b[1]) <= 0
               /\ (p[2] - a[2]) * (p[2] - b[2]) <= 0
Edge(t, p) == On(t[1], t[2], p) \/ On(t[2], t[3], p) \/ On(t[3], t[1], p)
Inside(t, p) == ~Edge(t, p) /\
    LET u == Cross(t[1], t[2], p) v == Cross(t[2], t[3], p)
        w == Cross(t[3], t[1], p)
    IN  (u > 0 /\ v > 0 /\ w > 0) \/ (u < 0 /\ v < 0 /\ w < 0)
Flat(t) == Cross(t[1], t[2], t[3]) = 0
Pick(t) == IF Flat(t) THEN 0
           ELSE 2 * Cardinality({p \in Grid : Inside(t, p)})
                + Cardinality({p \in Grid : Edge(t, p)}) - 2
PickArea == Round /\ Len(poly) = 3 => TwiceArea = Pick(poly)
\* a quadrilateral whose diagonal separates the other two corners
Split(p) == Cross(p[1], p[3], p[2]) * Cross(p[1], p[3], p[4]) < 0
SplitArea == Round /\ Len(poly) = 4 /\ Split(poly) =>
    TwiceArea = Pick(<<poly[1], poly[2], poly[3]>>)
                + Pick(<<poly[1], poly[3], poly[4]>>)
\* where the walk starts, its direction and the place do not matter
RECURSIVE Sum(_, _)
Sum(p, k) == IF k = 0 THEN 0 ELSE LET a == p[k]
                 b == p[IF k = Len(p) THEN 1 ELSE k + 1] IN
             a[1] * b[2] - b[1] * a[2] + Sum(p, k - 1)
Turned(p) == Append(SubSeq(p, 2, Len(p)), p[1])
Moved(p) == [k \in DOMAIN p |-> <<p[k][1] - 7, p[k][2] + 5>>]
Invariance == Round => /\ Abs(Sum(Turned(poly), Len(poly))) = TwiceArea
                       /\ Abs(Sum(Reverse(poly), Len(poly))) = TwiceArea
                       /\ Abs(Sum(Moved(poly), Len(poly))) = TwiceArea
ASSUME \A l \in 0..Row, b \in 1..Row :
    /\ LET n == Reaching(l, b) IN (n - 1) * b >= l /\ (n > 1 => (n - 2) * b < l)
    /\ LET n == Within(l, b) IN (n - 1) * b <= l /\ n * b > l
    /\ Reaching(l, b) - Within(l, b) = IF l % b = 0 THEN 0 ELSE 1
Sizes == UNION {[1..n -> 1..3] : n \in 0..4}
Named(s) == [k \in DOMAIN s |-> <<s[k], k>>]
ASSUME \A s \in Sizes : LET o == Ordered(Named(s)) IN
    /\ Len(o) = Len(s) /\ ToSet(o) = ToSet(Named(s))
    /\ \A j, k \in DOMAIN o : j < k =>
           o[j][1] < o[k][1] \/ (o[j][1] = o[k][1] /\ o[j][2] < o[k][2])
ASSUME \A s \in Sizes : Unimodal(s) <=>
    \A j, k \in DOMAIN s : j < k => s[j] >= s[k]
ASSUME \A o \in Grid, lx \in 0..2, ly \in 0..2 :
    LET R == Rectangle(o, lx, ly) IN Abs(Sum(R, 4)) = 2 * lx * ly
ASSUME \A a, b \in {-1, 0, 1} : Bracket(a, b) <=> {a, b} = {-1, 1}
=============================================================================
