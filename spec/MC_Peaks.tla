------------------------------ MODULE MC_Peaks ------------------------------
(* Windows of a few hours within and before a month of M hours.            *)
EXTENDS Peaks
CONSTANTS Win, Top, M
Incr == {g \in [1..Win -> 1..(Win + 2)] : \A i \in 1..(Win - 1) : g[i] < g[i + 1]}
RECURSIVE Total(_, _)
Total(l, k) == IF k = 0 THEN 0 ELSE l[k] + Total(l, k - 1)
Largest(l) == CHOOSE v \in {l[k] : k \in DOMAIN l} : \A k \in DOMAIN l : l[k] <= v
Init == \E l \in [1..Win -> 0..Top], g \in Incr, r \in 0..1, inside \in 0..Win :
        \* the last `inside' hours are of the month, the others before it
        \E rest \in 0..((M - inside) * Top), mpk \in 0..Top :
        LET s == Total(l, Win) - Total(l, Win - inside) + rest
            p == IF mpk > Largest(l) THEN mpk ELSE Largest(l)
        IN  /\ s <= mpk * M
            /\ KInit(l, p, s, M, g, r)
Spec == Init /\ [][Hour]_kvars
\* a duration that matches exists (found by the hour), and only one does
Half == Million \div 2
Exists == Simulated /\ Positive =>
    \E j \in 1..Win : BLeq(Constant(j - 1), top) /\ BLeq(top, Constant(j))
Unique == Simulated /\ Positive =>
    Cardinality({j \in 0..Win : Matches(j * Million, 0)}) <= 1
\* a window at the peak all along lasts for all of it
Flat == Simulated /\ Positive /\ (\A i \in 1..Win : L[i] = P) =>
    Matches(Win * Million, 0)
=============================================================================
