-------------------------- MODULE MC_PolyDomains ---------------------------
(* Polygonal domains of small triangles, with and without a hole.          *)
EXTENDS PolyDomains
CONSTANTS M
Tri == {<<<<0, 0>>, <<M, 0>>, <<0, M>>>>, <<<<0, 0>>, <<M, M - 1>>, <<1, M - 2>>>>,
        <<<<1, 1>>, <<M - 1, 0>>, <<M, M>>>>,
        <<<<0, 0>>, <<M, 0>>, <<M, 2>>, <<2, 2>>, <<2, M>>, <<0, M>>>>}
Holes == {<<>>, <<<<1, 1>>, <<2, 1>>, <<2, 2>>, <<1, 2>>>>,
          <<<<0, 0>>, <<M, 0>>, <<M, M>>, <<0, M>>>>,
          <<<<0, 0>>, <<2, 1>>, <<1, 3>>>>}
Init == \E q \in Tri, h \in Holes, bm \in 1..2, b1, b2 \in 1..3 :
        LET s == Max1(q) < Max2(q)
            r == [routine |-> "birect", L1 |-> IF s THEN Max2(q) ELSE Max1(q),
                  L2 |-> IF s THEN Max1(q) ELSE Max2(q), Bmin |-> bm,
                  Bm1 |-> b1, Bm2 |-> b2, lower |-> 0, upper |-> 0]
        IN  bm <= b1 /\ bm <= b2 /\ Buildable(r) /\ PInit(r, q, h, s)
Spec == Init /\ [][PNext]_<<dvars, pvars>>
\* nothing drillable of the full fields is lost
Kept == ph = "end" => LET f == field IN
    \A p \in Survivors(f) : \E k \in DOMAIN given[2] : p \in given[2][k]
\* a hole as large as the property leaves nothing
Covered == hole = <<<<0, 0>>, <<M, 0>>, <<M, M>>, <<0, M>>>> =>
           acc = <<>> /\ given[2] = <<>>
=============================================================================
