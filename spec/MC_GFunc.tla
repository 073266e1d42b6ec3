------------------------------ MODULE MC_GFunc ------------------------------
(* Two to four (deep: five) curves on small heights, all queries.          *)
EXTENDS GFunc
CONSTANTS Grid, MaxY, MaxN
VARIABLES H, y
Kinds == {"default", "linear", "quadratic", "cubic", "lagrange"}
Sorted(S) == SetToSortSeq(S, <)
Init == /\ \E S \in SUBSET Grid : Cardinality(S) \in 2..MaxN /\ H = Sorted(S)
        /\ y \in [1..Len(H) -> 0..MaxY]
        /\ GInit
Next == /\ \E x \in 0..7, k \in Kinds : Query(Len(H), x, k)
        /\ UNCHANGED <<H, y>>
Spec == Init /\ [][Next]_<<gvars, H, y>>
NoMemory == Memoryless(Len(H))
S0 == Nodes(H, y, asked.k, asked.x)
Value == Poly(H, S0, y, asked.x)
\* at a stored height the answer is the stored value
Through == asked # <<>> /\ S0 # <<>> => \A i \in 1..Len(H) :
    H[i] = asked.x => BEq(Value, BMulI(Com(H, S0), y[i]))
\* where several kinds are settled on data of a low degree they agree
Agree == asked # <<>> /\ OnPoly(H, y, 2) /\ S0 # <<>> =>
    BEq(BMul(Value, Com(H, <<1, 2>>)),
        BMul(Poly(H, <<1, 2>>, y, asked.x), Com(H, S0)))
\* linear interpolation stays between the neighbours
Between == asked # <<>> /\ S0 # <<>> /\ used = "linear" /\ ~Outside(H, asked.x) =>
    LET c == Com(H, S0)
        a == BMulI(c, y[S0[1]]) b == BMulI(c, y[S0[2]])
        s == IF BNegative(c) THEN -1 ELSE 1
        v == BMulI(Value, s) IN
    BLeq(BMin(BMulI(a, s), BMulI(b, s)), v) /\ BLeq(v, BMax(BMulI(a, s), BMulI(b, s)))
=============================================================================
