----------------------------- MODULE MC_Combine -----------------------------
EXTENDS Combine
CONSTANTS MaxX
Curves == {SetToSortSeq(S, <) : S \in SUBSET (0..MaxX) \ {{}}}
\* the value of a point tells which curve it is of
Points(s, v) == [j \in 1..Len(s) |-> [x |-> BInt(s[j]), y |-> BInt(v + s[j])]]
Init == \E a \in Curves, b \in Curves, r \in {-1, 0, 2} :
            CInit(Points(a, 20), Points(b, 40), BInt(r))
Spec == Init /\ [][CNext]_cvars
=============================================================================
