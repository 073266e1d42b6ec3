------------------------------ MODULE Polygon ------------------------------
(***************************************************************************)
(* Position of a point relative to a polygon, exactly, and the filter that *)
(* removes boreholes with it.                                              *)
(* A polygon is a sequence of integer points (the last joins the first).   *)
(* A point is a pair of rationals <<<<xn, xd>>, <<yn, yd>>>>, xd, yd > 0.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Int2(p) == <<<<p[1], 1>>, <<p[2], 1>>>>

\* (b - a) x (p - a), times the denominators of p
Cross(p, a, b) ==
    (b[1] - a[1]) * (p[2][1] - a[2] * p[2][2]) * p[1][2] -
    (b[2] - a[2]) * (p[1][1] - a[1] * p[1][2]) * p[2][2]
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Cmp(r, n) == Sign(r[1] - n * r[2])      \* rational against integer
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a

OnSegment(p, a, b) ==
    /\ Cmp(p[1], Lo(a[1], b[1])) >= 0 /\ Cmp(p[1], Hi(a[1], b[1])) <= 0
    /\ Cmp(p[2], Lo(a[2], b[2])) >= 0 /\ Cmp(p[2], Hi(a[2], b[2])) <= 0
    /\ Cross(p, a, b) = 0

\* the ray from p in direction +x crosses the segment, which is taken to
\* contain its lower end only
Crossed(p, a, b) ==
    \/ Cmp(p[2], a[2]) >= 0 /\ Cmp(p[2], b[2]) < 0 /\ Cross(p, a, b) > 0
    \/ Cmp(p[2], b[2]) >= 0 /\ Cmp(p[2], a[2]) < 0 /\ Cross(p, a, b) < 0

Next1(i, poly) == IF i = Len(poly) THEN 1 ELSE i + 1
On(p, poly) == \E i \in DOMAIN poly : OnSegment(p, poly[i], poly[Next1(i, poly)])
Odd(p, poly) == Cardinality({i \in DOMAIN poly :
                    Crossed(p, poly[i], poly[Next1(i, poly)])}) % 2 = 1
Where(p, poly) == IF On(p, poly) THEN "on"
                  ELSE IF Odd(p, poly) THEN "in" ELSE "out"

(* What the filter keeps *)
Kept(w, removeInside, keepContour) ==
    CASE w = "on" -> keepContour
      [] w = "in" -> ~removeInside
      [] w = "out" -> removeInside
Keeps(p, poly, removeInside, keepContour) ==
    poly = <<>> \/ Kept(Where(p, poly), removeInside, keepContour)

(***************************************************************************)
(* The filter, one borehole at a time.                                     *)
(***************************************************************************)
VARIABLES pts,    \* boreholes (integer points), a sequence
          poly,   \* polygon, empty if none is given
          ri, kc, \* options remove_inside, keep_contour
          pos,    \* boreholes treated
          out     \* survivors, a sequence
fvars == <<pts, poly, ri, kc, pos, out>>

FInit(q, g, a, b) == /\ pts = q /\ poly = g /\ ri = a /\ kc = b
                     /\ pos = 0 /\ out = <<>>
Keep == /\ pos < Len(pts)
        /\ Keeps(Int2(pts[pos + 1]), poly, ri, kc)
        /\ out' = Append(out, pts[pos + 1])
Remove == /\ pos < Len(pts)
          /\ ~Keeps(Int2(pts[pos + 1]), poly, ri, kc)
          /\ out' = out
FStep == (Keep \/ Remove) /\ pos' = pos + 1 /\ UNCHANGED <<pts, poly, ri, kc>>
Filtered == pos = Len(pts)
=============================================================================
