------------------------------- MODULE GFunc --------------------------------
(***************************************************************************)
(* Interpolation of stored curves (C20).  A column is the sequence of the  *)
(* values that the curves have in one place; heights are increasing        *)
(* integers.  The answer to a query depends on the column, the height and  *)
(* the kind only.                                                          *)
(*                                                                         *)
(* Exact rational arithmetic: for the nodes S (indices) the interpolating  *)
(* polynomial at x is  SUM y_i * Num(i) / Den(i); all terms are brought to *)
(* the denominator  Com = product of all Den.                              *)
(***************************************************************************)
EXTENDS Big, FiniteSets

Needed == [linear |-> 2, quadratic |-> 3, cubic |-> 4, lagrange |-> 2]
ByNumber == <<"none", "linear", "quadratic", "cubic">>
\* the kind used for n curves when k is asked for
Used(k, n) ==
    LET w == IF k # "default" THEN k
             ELSE IF n >= 5 THEN "cubic" ELSE IF n >= 3 THEN "quadratic"
             ELSE "linear"
    IN  IF Needed[w] > n THEN ByNumber[n] ELSE w

Indices(s, e) == [j \in 1..(e - s + 1) |-> s + j - 1]
Prod(S, i, F(_, _)) == FoldLeft(LAMBDA a, j : IF j = i THEN a
                                             ELSE BMul(a, F(i, j)), <<1>>, S)
Den(H, S, i) == LET F(a, b) == BInt(H[a] - H[b]) IN Prod(S, i, F)
Num(H, S, i, x) == LET F(a, b) == BInt(x - H[b]) IN Prod(S, i, F)
Others(H, S, i) == LET F(a, b) == Den(H, S, b) IN Prod(S, i, F)
Com(H, S) == LET F(a, b) == Den(H, S, b) IN Prod(S, 0, F)
Term(H, S, i, y, x) == BMul(BMul(BInt(y[i]), Num(H, S, i, x)), Others(H, S, i))
\* polynomial through the nodes S at x, times Com
Poly(H, S, y, x) == BSumSeq([k \in 1..Len(S) |-> Term(H, S, S[k], y, x)])
Gross(H, S, y, x) == BSumSeq([k \in 1..Len(S) |-> BAbs(Term(H, S, S[k], y, x))])
\* the column lies on a polynomial through the nodes 1..d
OnPoly(H, y, d) == \A i \in (d + 1)..Len(H) :
    BEq(Poly(H, Indices(1, d), y, H[i]), BMulI(Com(H, Indices(1, d)), y[i]))

(* Nodes that settle the answer, or <<>> where the spline has no closed    *)
(* form: linear is piecewise, beyond the ends the end pieces go on         *)
Piece(H, x) == FoldLeft(LAMBDA a, j : IF j < Len(H) /\ H[j] <= x THEN j ELSE a,
                        1, Indices(1, Len(H)))
Nodes(H, y, k, x) ==
    LET n == Len(H) u == Used(k, n) d == Needed[u] IN
    IF u = "lagrange" THEN Indices(1, n)
    ELSE IF u = "linear" THEN <<Piece(H, x), Piece(H, x) + 1>>
    ELSE IF n = d \/ OnPoly(H, y, d) THEN Indices(1, d)
    ELSE IF \E i \in 1..n : H[i] = x
         THEN <<CHOOSE i \in 1..n : H[i] = x>>
    ELSE <<>>

(* Queries answered through a kept table: the machine that the answers     *)
(* must not depend on                                                      *)
VARIABLES table,  \* kind of the table kept, "none" at first
          asked,  \* last query [x, k]
          used    \* kind of the table that answered it
gvars == <<table, asked, used>>
GInit == table = "none" /\ asked = <<>> /\ used = "none"
Query(n, x, k) ==
    /\ asked' = [x |-> x, k |-> k]
    /\ table' = Used(k, n)      \* made anew unless it is of that kind
    /\ used' = table'
Memoryless(n) == asked # <<>> => used = Used(asked.k, n)
Outside(H, x) == x < H[1] \/ x > H[Len(H)]
=============================================================================
