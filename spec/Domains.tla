------------------------------ MODULE Domains ------------------------------
(***************************************************************************)
(* Construction of the candidate domains, one field at a time.             *)
(*                                                                         *)
(* A request g is a record                                                 *)
(*   routine "near" | "rect" | "birect" | "zoned" | "zoned1"               *)
(*   L1, L2  land (mm), L1 >= L2 after the axes are swapped if necessary   *)
(*   Bmin, Bm1, Bm2 least spacing, greatest spacing along each axis (mm)   *)
(*   lower, upper   sizes of the near-square domain, or the perimeter      *)
(*                  (n1, n2) of a single zoned domain                      *)
(* Unused components are 0.                                                *)
(***************************************************************************)
EXTENDS Layouts

VARIABLES g,      \* request
          ph,     \* phase of the construction
          i, j,   \* counters of the phase
          v1, v2, \* perimeter sizes of the zoned domain under way
          d,      \* number of the domain, from 1
          field,  \* field just emitted
          fresh,  \* field is the first of its domain
          prev    \* size of the field before it in its domain, 0 if none

dvars == <<g, ph, i, j, v1, v2, d, field, fresh, prev>>

(* The fewest boreholes with spacing at most B, the most with at least B *)
NumCeil(L, B) == (L + B - 1) \div B + 1
NumFloor(L, B) == L \div B + 1

MinN1 == NumCeil(g.L1, g.Bm1)
MaxN1 == NumFloor(g.L1, g.Bmin)
MinN2 == NumCeil(g.L2, g.Bm2)
MaxN2 == NumFloor(g.L2, g.Bmin)
\* rows across that fit at spacing L1 / (n - 1)
Rows(n) == (g.L2 * (n - 1)) \div g.L1 + 1

NoField == [shape |-> "none", n1 |-> 0, n2 |-> 0, a |-> 0, b |-> 0,
            s1 |-> <<0, 1>>, s2 |-> <<0, 1>>, o1 |-> 0, o2 |-> 0]
Mk(sh, n1, n2, a, b, s1, s2) ==
    [shape |-> sh, n1 |-> n1, n2 |-> n2, a |-> a, b |-> b, s1 |-> s1,
     s2 |-> s2, o1 |-> 0, o2 |-> 0]

(* The construction succeeds and its domains are not empty *)
Buildable(r) ==
    CASE r.routine = "near" -> 1 <= r.lower /\ r.lower <= r.upper
      [] r.routine = "rect" -> NumCeil(r.L1, r.Bm1) <= NumFloor(r.L1, r.Bmin)
      [] r.routine = "birect" ->
            NumCeil(r.L1, r.Bm1) <= NumFloor(r.L1, r.Bmin) /\
            NumCeil(r.L2, r.Bm2) <= NumFloor(r.L2, r.Bmin)
      [] r.routine = "zoned" ->
            NumCeil(r.L1, r.Bm1) \in 3..NumFloor(r.L1, r.Bmin) /\
            NumCeil(r.L2, r.Bm2) \in 3..NumFloor(r.L2, r.Bmin)
      [] r.routine = "zoned1" -> r.lower >= 3 /\ r.upper >= 3

DInit(r) ==
    /\ g = r
    /\ ph = CASE r.routine = "near" -> "near"
              [] r.routine \in {"rect", "birect", "zoned"} -> "line"
              [] r.routine = "zoned1" -> "inner0"
    /\ i = CASE r.routine = "near" -> r.lower
             [] OTHER -> 1
    /\ j = 0
    /\ v1 = CASE r.routine = "zoned1" -> r.lower
              [] r.routine = "zoned" -> NumCeil(r.L1, r.Bm1)
              [] r.routine = "birect" -> 0
              [] OTHER -> 0
    /\ v2 = CASE r.routine = "zoned1" -> r.upper
              [] r.routine \in {"zoned", "birect"} -> NumCeil(r.L2, r.Bm2)
              [] OTHER -> 0
    /\ d = 1 /\ field = NoField /\ fresh = TRUE /\ prev = 0

Emit(f) == /\ field' = f
           /\ prev' = IF fresh' THEN 0 ELSE Size(field)
SameDomain == UNCHANGED d /\ fresh' = (field = NoField)
Step(p, x, y) == ph' = p /\ i' = x /\ j' = y

(*------------------------------ near-square -----------------------------*)
Near ==
    /\ ph = "near"
    /\ SameDomain
    /\ Emit(Mk("rect", i, i + j, 0, 0, <<g.Bm1, 1>>, <<g.Bm1, 1>>))
    /\ IF i = g.upper THEN Step("end", 0, 0)
       ELSE IF j = 0 THEN Step("near", i, 1) ELSE Step("near", i + 1, 0)
    /\ UNCHANGED <<g, v1, v2>>

(*------------------------------ rectangular -----------------------------*)
RSpace(n) == <<g.L1, n - 1>>
RectLine ==
    /\ ph = "line" /\ g.routine = "rect" /\ i < MinN1
    /\ SameDomain
    /\ Emit(Mk("rect", i, 1, 0, 0, RSpace(MinN1), RSpace(MinN1)))
    /\ Step("line", i + 1, 0)
    /\ UNCHANGED <<g, v1, v2>>
RectRow ==
    /\ g.routine = "rect"
    /\ \/ ph = "line" /\ i = MinN1 /\ 1 < Rows(MinN1)
       \/ ph = "row" /\ j + 1 < Rows(MinN1)
    /\ SameDomain
    /\ Emit(Mk("rect", MinN1, j + 1, 0, 0, RSpace(MinN1), RSpace(MinN1)))
    /\ Step("row", MinN1, j + 1)
    /\ UNCHANGED <<g, v1, v2>>
\* the next number of columns for which one more row fits
NextN(n, rows) == {m \in n..MaxN1 : Rows(m) > rows /\
                      \A q \in n..(m - 1) : Rows(q) <= rows}
RectGrid ==
    /\ g.routine = "rect"
    /\ \/ ph = "line" /\ i = MinN1 /\ Rows(MinN1) = 1
       \/ ph = "row" /\ j + 1 = Rows(MinN1)
       \/ ph = "grid" /\ NextN(i, j) # {}
    /\ LET n == IF ph = "grid" THEN CHOOSE m \in NextN(i, j) : TRUE ELSE MinN1
       IN  /\ SameDomain
           /\ Emit(Mk("rect", n, Rows(n), 0, 0, RSpace(n), RSpace(n)))
           /\ Step("grid", n + 1, Rows(n))
    /\ UNCHANGED <<g, v1, v2>>
RectEnd == /\ ph = "grid" /\ g.routine = "rect" /\ NextN(i, j) = {}
           /\ Step("end", 0, 0) /\ UNCHANGED <<g, v1, v2, d, field, fresh, prev>>

(*---------------------------- bi-rectangular ----------------------------*)
(* v2: rows of the domain under way *)
S1(n) == <<g.L1, n - 1>>
S2(n) == <<g.L2, n - 1>>
BiFirst == ph = "line" /\ i = 1
BiEmit(n, m, k) == Emit(Mk("rect", n, m, 0, 0, S1(k), S2(v2)))
BiLine ==
    /\ ph = "line" /\ g.routine = "birect" /\ i < MinN1
    /\ fresh' = (i = 1) /\ UNCHANGED d
    /\ BiEmit(i, 1, MinN1)
    /\ Step("line", i + 1, 0)
    /\ UNCHANGED <<g, v1, v2>>
BiRow ==
    /\ g.routine = "birect"
    /\ ph \in {"line", "row"} /\ (ph = "line" => i = MinN1)
    /\ j + 1 < v2
    /\ fresh' = FALSE /\ UNCHANGED d
    /\ BiEmit(MinN1, j + 1, MinN1)
    /\ Step("row", MinN1, j + 1)
    /\ UNCHANGED <<g, v1, v2>>
BiGrid ==
    /\ g.routine = "birect"
    /\ \/ ph \in {"line", "row"} /\ i = MinN1 /\ j + 1 = v2
       \/ ph = "grid" /\ i <= MaxN1
    /\ fresh' = FALSE /\ UNCHANGED d
    /\ BiEmit(i, v2, i)
    /\ Step("grid", i + 1, 0)
    /\ UNCHANGED <<g, v1, v2>>
BiNext ==
    /\ ph = "grid" /\ g.routine = "birect" /\ i > MaxN1
    /\ IF v2 < MaxN2
       THEN Step("line", 1, 0) /\ v2' = v2 + 1 /\ d' = d + 1
       ELSE Step("end", 0, 0) /\ UNCHANGED <<v2, d>>
    /\ UNCHANGED <<g, v1, field, fresh, prev>>

(*------------------------------- bi-zoned -------------------------------*)
ZEmit(sh, n, m, a, b) == Emit(Mk(sh, n, m, a, b, S1(v1), S2(v2)))
\* zoned fields of a single domain have no prefix
ZLine ==
    /\ ph = "line" /\ g.routine = "zoned"
    /\ fresh' = (i = 1) /\ UNCHANGED d
    /\ ZEmit("rect", i, 1, 0, 0)
    /\ IF i = v1 THEN Step("ell", 2, 0) ELSE Step("line", i + 1, 0)
    /\ UNCHANGED <<g, v1, v2>>
ZEll ==
    /\ ph = "ell"
    /\ fresh' = FALSE /\ UNCHANGED d
    /\ ZEmit("L", v1, i, 0, 0)
    /\ IF i = v2 THEN Step("you", 2, 0) ELSE Step("ell", i + 1, 0)
    /\ UNCHANGED <<g, v1, v2>>
ZYou ==
    /\ ph = "you"
    /\ fresh' = FALSE /\ UNCHANGED d
    /\ ZEmit("lopU", v1, v2, v2, i)
    /\ IF i = v2 THEN Step("cee", 1, 0) ELSE Step("you", i + 1, 0)
    /\ UNCHANGED <<g, v1, v2>>
ZCee ==
    /\ ph = "cee"
    /\ fresh' = FALSE /\ UNCHANGED d
    /\ ZEmit("C", v1, v2, i, 0)
    /\ IF i = v1 - 2 THEN Step("inner0", 0, 0) ELSE Step("cee", i + 1, 0)
    /\ UNCHANGED <<g, v1, v2>>
ZFirst ==
    /\ ph = "inner0"
    /\ fresh' = (g.routine = "zoned1" \/ d > 1) /\ UNCHANGED d
    /\ ZEmit("zoned", v1, v2, 1, 1)
    /\ Step("inner", 1, 1)
    /\ UNCHANGED <<g, v1, v2>>
Full == i = v1 - 2 /\ j = v2 - 2
(* One more interior column keeps the distance between the interior and    *)
(* the perimeter at least as large as one more row would; both may         *)
\* ratio of spacings before and after:  (L1/(i+1)) / (L2/(j+2)) > b1/b2
ColumnGain == (v1 - 1) * (j + 2)
RowGain == (v2 - 1) * (i + 1)
ZColumn ==
    /\ ph = "inner" /\ ~Full /\ i < v1 - 2
    /\ ColumnGain >= RowGain
    /\ fresh' = FALSE /\ UNCHANGED d
    /\ ZEmit("zoned", v1, v2, i + 1, j)
    /\ Step("inner", i + 1, j)
    /\ UNCHANGED <<g, v1, v2>>
ZRow ==
    /\ ph = "inner" /\ ~Full /\ j < v2 - 2
    /\ ColumnGain <= RowGain
    /\ fresh' = FALSE /\ UNCHANGED d
    /\ ZEmit("zoned", v1, v2, i, j + 1)
    /\ Step("inner", i, j + 1)
    /\ UNCHANGED <<g, v1, v2>>
(* Perimeters grow alternately, first along the long side *)
ZNext ==
    /\ ph = "inner" /\ Full
    /\ IF g.routine = "zoned1" \/ (v1 = MaxN1 /\ v2 = MaxN2)
       THEN Step("end", 0, 0) /\ UNCHANGED <<v1, v2, d>>
       ELSE /\ Step("inner0", 0, 0) /\ d' = d + 1
            /\ LET one == IF d % 2 = 1 THEN v1 < MaxN1 ELSE ~(v2 < MaxN2)
               IN  IF one THEN v1' = v1 + 1 /\ v2' = v2
                   ELSE v1' = v1 /\ v2' = v2 + 1
    /\ UNCHANGED <<g, field, fresh, prev>>

Emitting == Near \/ RectLine \/ RectRow \/ RectGrid \/ BiLine \/ BiRow \/ BiGrid
            \/ ZLine \/ ZEll \/ ZYou \/ ZCee \/ ZFirst \/ ZColumn \/ ZRow
Silent == RectEnd \/ BiNext \/ ZNext
DNext == Emitting \/ Silent

(***************************************************************************)
(* Guarantees                                                              *)
(***************************************************************************)
Some == field # NoField
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
SpanOf(n, s) == <<(n - 1) * s[1], s[2]>>
\* every field is on the land (the near-square land is a square)
OnLand == Some =>
    LET land1 == IF g.routine = "near" THEN (g.upper - 1) * g.Bm1 ELSE g.L1
        land2 == IF g.routine = "near" THEN (g.upper - 1) * g.Bm1 ELSE g.L2
    IN  \A p \in Points(field) :
            /\ p[1][1] >= 0 /\ p[1][1] <= land1 * p[1][2]
            /\ p[2][1] >= 0 /\ p[2][1] <= land2 * p[2][2]
Admissible == Some =>
    CASE g.routine = "rect" -> Leq(<<g.Bmin, 1>>, field.s1) /\
                               Leq(field.s1, <<g.Bm1, 1>>) /\
                               field.s1 = field.s2
      [] g.routine \in {"birect", "zoned"} ->
            /\ Leq(<<g.Bmin, 1>>, field.s1) /\ Leq(field.s1, <<g.Bm1, 1>>)
            /\ Leq(<<g.Bmin, 1>>, field.s2) /\ Leq(field.s2, <<g.Bm2, 1>>)
      [] OTHER -> TRUE
Grows == Some /\ prev > 0 => Size(field) >= prev
NearGrows == Some /\ prev > 0 /\ g.routine = "near" => Size(field) > prev
StartsWithOne == Some /\ fresh /\ (\/ g.routine \in {"rect", "birect"}
                           \/ (g.routine = "zoned" /\ d = 1)) => Size(field) = 1
\* interiors are strictly inside the perimeter, and never outnumber it
InsidePerimeter == Some /\ field.shape = "zoned" =>
    /\ ZonedFits(field.n1, field.n2, field.a, field.b)
    /\ Keys(field) # {} /\ Size(field) =
          2 * field.n1 + 2 * field.n2 - 4 + field.a * field.b
\* the last field of each domain is the full grid of the widest admissible
EndsFull ==
    /\ ph = "end" /\ g.routine = "near" =>
          field.n1 = g.upper /\ field.n2 = g.upper
    /\ ph = "end" /\ g.routine = "birect" =>
          field.n1 = MaxN1 /\ field.n2 = MaxN2
    /\ ph = "end" /\ g.routine = "zoned" =>
          field.n1 = MaxN1 /\ field.n2 = MaxN2 /\
          Cardinality(Points(field)) = field.n1 * field.n2
    /\ ph = "end" /\ g.routine = "rect" =>
          Rows(MaxN1) = field.n2 /\ field.n1 <= MaxN1
\* as many rows as fit, and no room for one more
RowsFit == Some /\ g.routine = "rect" /\ field.n2 > 1 /\ ph \in {"grid", "end"} =>
    ~Leq(SpanOf(field.n2 + 1, field.s2), <<g.L2, 1>>)
Domains2 == ph = "end" =>
    d = CASE g.routine = "birect" -> MaxN2 - MinN2 + 1
          [] g.routine = "zoned" -> MaxN1 - MinN1 + MaxN2 - MinN2 + 1
          [] OTHER -> 1
Progress == <>(ph = "end")
=============================================================================
