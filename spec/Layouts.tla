------------------------------ MODULE Layouts ------------------------------
(***************************************************************************)
(* Shapes of borehole fields.                                              *)
(*                                                                         *)
(* A field is described by a record                                        *)
(*   shape  "rect" | "open" | "U" | "lopU" | "L" | "C" | "zoned"           *)
(*   n1,n2  boreholes along the two axes                                   *)
(*   a,b    extra sizes of lopU (left, right columns), C (top row) and     *)
(*          zoned (interior boreholes along the two axes)                  *)
(*   s1,s2  spacing along each axis, a rational <<num, den>> of millimetres*)
(*   o1,o2  origin in millimetres                                          *)
(* Its points are exact rationals; K maps a rational coordinate to an      *)
(* integer key (millimetres, rounded at a threshold no coordinate with a   *)
(* denominator up to 60 comes close to), and the harness maps the floating *)
(* point coordinates of the code to keys in the same way.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* floor(num/den + 33/67)
K(num, den) == (num * 67 + 33 * den) \div (67 * den)

Rect(n1, n2) == (0..(n1 - 1)) \X (0..(n2 - 1))
Open(n1, n2) == IF n1 > 2 /\ n2 > 2
                THEN {p \in Rect(n1, n2) : p[1] \in {0, n1 - 1} \/
                                           p[2] \in {0, n2 - 1}}
                ELSE Rect(n1, n2)
Ell(n1, n2) == {p \in Rect(n1, n2) : p[1] = 0 \/ p[2] = 0}
\* a: height of the left column, b: of the right column
LopU(n1, a, b) == {<<i, 0>> : i \in 0..(n1 - 1)}
                  \cup {<<0, j>> : j \in 0..(a - 1)}
                  \cup {<<n1 - 1, j>> : j \in 0..(b - 1)}
YouS(n1, n2) == IF n1 > 2 /\ n2 > 1 THEN LopU(n1, n2, n2) ELSE Rect(n1, n2)
\* k boreholes of the top row, from the left
Cee(n1, n2, k) == LopU(n1, n2, n2) \cup {<<i, n2 - 1>> : i \in 1..k}

(* Lattice points (on the spacing of the field) *)
Lattice(f) ==
    CASE f.shape = "rect" -> Rect(f.n1, f.n2)
      [] f.shape = "open" -> Open(f.n1, f.n2)
      [] f.shape = "U" -> YouS(f.n1, f.n2)
      [] f.shape = "lopU" -> LopU(f.n1, f.a, f.b)
      [] f.shape = "L" -> Ell(f.n1, f.n2)
      [] f.shape = "C" -> Cee(f.n1, f.n2, f.a)
      [] f.shape = "zoned" -> Open(f.n1, f.n2)

(* Interior lattice points of a zoned field, on the spacing                *)
(* (n - 1) * spacing / (interior + 1)                                      *)
Interior(f) == IF f.shape = "zoned" THEN (1..f.a) \X (1..f.b) ELSE {}

(* (n - 1) * s as a rational with the smallest denominator possible *)
Span(n, s) == IF ((n - 1) * s[1]) % s[2] = 0
              THEN <<((n - 1) * s[1]) \div s[2], 1>>
              ELSE <<(n - 1) * s[1], s[2]>>
InnerSpacing(n, s, i) == <<Span(n, s)[1], Span(n, s)[2] * (i + 1)>>

Size(f) == Cardinality(Lattice(f)) + Cardinality(Interior(f))

(* Exact points <<<<num, den>>, <<num, den>>>> *)
At(i, s, o) == <<i * s[1] + o * s[2], s[2]>>
Points(f) ==
    {<<At(p[1], f.s1, f.o1), At(p[2], f.s2, f.o2)>> : p \in Lattice(f)}
    \cup (IF f.shape # "zoned" THEN {} ELSE
          LET i1 == InnerSpacing(f.n1, f.s1, f.a)
              i2 == InnerSpacing(f.n2, f.s2, f.b)
          IN  {<<At(p[1], i1, f.o1), At(p[2], i2, f.o2)>> : p \in Interior(f)})

KeysOf(points) == {<<K(p[1][1], p[1][2]), K(p[2][1], p[2][2])>> : p \in points}
Keys(f) == KeysOf(Points(f))
Swap(s) == {<<p[2], p[1]>> : p \in s}

(* Observed: a sequence of key pairs, each borehole once *)
SeqIs(obs, keys) == /\ Len(obs) = Cardinality(keys)
                    /\ {obs[i] : i \in DOMAIN obs} = keys

ZonedFits(n1, n2, i1, i2) == i1 <= n1 - 2 /\ i2 <= n2 - 2
=============================================================================
