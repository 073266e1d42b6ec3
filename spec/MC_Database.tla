---------------------------- MODULE MC_Database -----------------------------
(* Every order of up to MaxN heights, radii tied to height in no way.      *)
EXTENDS Database
CONSTANTS MaxN
Init == \E n \in 1..MaxN : \E p \in [1..n -> 1..MaxN], r \in [1..n -> 1..2],
             d \in [1..n -> {0, 3}], has \in BOOLEAN :
            /\ \A a, b \in 1..n : a # b => p[a] # p[b]
            /\ DInit([j \in 1..n |-> [b |-> 5, h |-> p[j], r |-> r[j],
                                      d |-> IF has THEN d[j] ELSE -1,
                                      g |-> <<j>>]], 2)
Spec == Init /\ [][Read]_dvars
=============================================================================
