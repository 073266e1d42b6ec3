----------------------------- MODULE MC_Polygon -----------------------------
(***************************************************************************)
(* Polygon on a small grid: the crossing rule against independent          *)
(* definitions, and the filter.                                            *)
(***************************************************************************)
EXTENDS Polygon
CONSTANTS M, Sides
Pt == (0..M) \X (0..M)
Orient(a, b, c) == (b[1]-a[1]) * (c[2]-a[2]) - (b[2]-a[2]) * (c[1]-a[1])
SegsMeet(a, b, c, d) ==      \* closed segments have a common point
    \/ /\ Sign(Orient(a, b, c)) # Sign(Orient(a, b, d))
       /\ Sign(Orient(c, d, a)) # Sign(Orient(c, d, b))
    \/ OnSegment(Int2(c), a, b) \/ OnSegment(Int2(d), a, b)
    \/ OnSegment(Int2(a), c, d) \/ OnSegment(Int2(b), c, d)
Simple3(q) == Orient(q[1], q[2], q[3]) # 0
Simple4(q) == /\ \A i \in 1..4 : q[i] # q[Next1(i, q)]
              /\ ~SegsMeet(q[1], q[2], q[3], q[4])
              /\ ~SegsMeet(q[2], q[3], q[4], q[1])
              /\ \A i \in 1..4 : LET n == Next1(i, q) m == Next1(n, q)
                    IN Orient(q[i], q[n], q[m]) # 0
Polys == IF Sides = 3 THEN {q \in [1..3 -> Pt] : Simple3(q)}
         ELSE {q \in [1..4 -> Pt] : Simple4(q)}
\* all points of a grid around the polygon, in one fixed order
Wide == LET W == M + 3 IN
        [k \in 1..(W * W) |-> <<((k - 1) % W) - 1, ((k - 1) \div W) - 1>>]
Init == \E q \in Polys \cup {<<>>}, a, b \in BOOLEAN : FInit(Wide, q, a, b)
Spec == Init /\ [][FStep]_fvars

(* Inside a triangle: strictly on the same side of its three edges *)
Side(p, q, i) == Sign(Orient(q[i], q[Next1(i, q)], p))
InTriangle(p, q) == \/ \A i \in 1..3 : Side(p, q, i) = 1
                    \/ \A i \in 1..3 : Side(p, q, i) = -1
InClosed(p, q) == \/ \A i \in 1..3 : Side(p, q, i) >= 0
                  \/ \A i \in 1..3 : Side(p, q, i) <= 0
\* a quadrilateral is cut by a diagonal that lies in it
ConvexAt(q, i) == LET n == Next1(i, q) m == Next1(n, q) l == Next1(m, q) IN
    \* diagonal n-l splits q into triangles (i n l) and (n m l)
    /\ ~ InClosed(q[m], <<q[i], q[n], q[l]>>)
    /\ ~ InClosed(q[i], <<q[n], q[m], q[l]>>)
InQuad(p, q) == \E i \in 1..4 : ConvexAt(q, i) /\
    LET n == Next1(i, q) m == Next1(n, q) l == Next1(m, q) IN
    InClosed(p, <<q[i], q[n], q[l]>>) \/ InClosed(p, <<q[n], q[m], q[l]>>)
InsideIsInside == (poly # <<>> /\ pos < Len(pts)) =>
    LET p == pts[pos + 1] w == Where(Int2(p), poly) IN
    /\ Len(poly) = 3 => ((w = "in") = InTriangle(p, poly)) /\
                        ((w # "out") = InClosed(p, poly))
    /\ Len(poly) = 4 => ((w # "out") = InQuad(p, poly))
    \* starting elsewhere or going the other way round changes nothing
    /\ w = Where(Int2(p), Append(Tail(poly), Head(poly)))
    /\ w = Where(Int2(p), [i \in DOMAIN poly |-> poly[Len(poly) + 1 - i]])
    \* repeating the first vertex at the end neither
    /\ w = Where(Int2(p), Append(poly, Head(poly)))
    \* rationals with another denominator are the same point
    /\ w = Where(<<<<3 * p[1], 3>>, <<2 * p[2], 2>>>>, poly)
Subsequence == \A k \in DOMAIN out : out[k] \in {pts[i] : i \in 1..pos}
Ordered == \A k \in 1..(Len(out) - 1) :
    \E i, j \in 1..pos : i < j /\ pts[i] = out[k] /\ pts[j] = out[k + 1]
NoPolygon == Filtered /\ poly = <<>> => out = pts
\* complementary options split the boreholes
Complement == \A i \in DOMAIN pts : poly # <<>> =>
    Keeps(Int2(pts[i]), poly, ri, kc) # Keeps(Int2(pts[i]), poly, ~ri, ~kc)
Complete == Filtered => \A i \in DOMAIN pts :
    Keeps(Int2(pts[i]), poly, ri, kc) = (pts[i] \in {out[k] : k \in DOMAIN out})
=============================================================================
