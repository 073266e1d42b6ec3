----------------------------- MODULE MC_Layouts -----------------------------
(***************************************************************************)
(* The shapes of Layouts for all small sizes: borehole counts, that each   *)
(* shape of the growth sequence contains the one before, and that the      *)
(* interior of a zoned field keeps clear of its perimeter.                 *)
(***************************************************************************)
EXTENDS Layouts
CONSTANT Max
VARIABLES shape, n1, n2, a, b
vars == <<shape, n1, n2, a, b>>
f == [shape |-> shape, n1 |-> n1, n2 |-> n2, a |-> a, b |-> b,
      s1 |-> <<30, n1>>, s2 |-> <<35, n2>>, o1 |-> 0, o2 |-> 0]
\* grow a field of n1 x n2 from one borehole through all shapes
Init == shape = "rect" /\ n1 \in 3..Max /\ n2 \in 3..Max /\ a = 1 /\ b = 1
\* "rect" here: the line of a boreholes
Now == CASE shape = "rect" -> Rect(a, 1)
         [] shape = "L" -> Ell(n1, a)
         [] shape = "lopU" -> LopU(n1, n2, a)
         [] shape = "C" -> Cee(n1, n2, a)
         [] shape = "open" -> Open(n1, n2)
         [] OTHER -> Lattice(f) \cup {<<100, 100>> \o p : p \in Interior(f)}
Next ==
    \/ shape = "rect" /\ IF a < n1 THEN a' = a + 1 /\ UNCHANGED <<shape, b>>
                         ELSE shape' = "L" /\ a' = 2 /\ UNCHANGED b
    \/ shape = "L" /\ IF a < n2 THEN a' = a + 1 /\ UNCHANGED <<shape, b>>
                      ELSE shape' = "lopU" /\ a' = 2 /\ UNCHANGED b
    \/ shape = "lopU" /\ IF a < n2 THEN a' = a + 1 /\ UNCHANGED <<shape, b>>
                         ELSE shape' = "C" /\ a' = 1 /\ UNCHANGED b
    \/ shape = "C" /\ IF a < n1 - 2 THEN a' = a + 1 /\ UNCHANGED <<shape, b>>
                      ELSE shape' = "open" /\ a' = 0 /\ b' = 0
    \/ shape = "open" /\ shape' = "zoned" /\ a' = 1 /\ b' = 1
    \/ shape = "zoned" /\ a < n1 - 2 /\ a' = a + 1 /\ UNCHANGED <<shape, b>>
    \/ shape = "zoned" /\ b < n2 - 2 /\ b' = b + 1 /\ UNCHANGED <<shape, a>>
Spec == Init /\ [][Next /\ UNCHANGED <<n1, n2>>]_vars
Contained == [][Now \subseteq Now' \/ shape' = "zoned"]_vars
OneMore == [][Cardinality(Now') = Cardinality(Now) + 1 \/ shape' = "zoned"
              \/ (shape = "C" /\ shape' = "open")]_vars
SameAsOpen == shape = "C" /\ a = n1 - 2 => Now = Open(n1, n2)
\* closed formulas for the number of boreholes
Counts ==
    /\ Cardinality(Open(n1, n2)) = 2 * n1 + 2 * n2 - 4
    /\ Cardinality(YouS(n1, n2)) = 2 * n2 + n1 - 2
    /\ Cardinality(Ell(n1, n2)) = n1 + n2 - 1
    /\ \A k \in 1..n2 : Cardinality(LopU(n1, n2, k)) = n1 + n2 + k - 2
    /\ \A k \in 0..(n1 - 2) : Cardinality(Cee(n1, n2, k)) = n1 + 2 * n2 - 2 + k
    /\ shape = "zoned" => Cardinality(Points(f)) = Size(f)
\* interior boreholes are clear of the perimeter by the perimeter spacing
Clear == shape = "zoned" =>
    LET i1 == InnerSpacing(n1, f.s1, a)
    IN  i1[1] * f.s1[2] >= f.s1[1] * i1[2]
FullGrid == shape = "zoned" /\ a = n1 - 2 /\ b = n2 - 2 =>
    KeysOf(Points(f)) = Keys([f EXCEPT !.shape = "rect"])
=============================================================================
