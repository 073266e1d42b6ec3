------------------------------ MODULE MC_Equiv ------------------------------
EXTENDS Equiv
CONSTANTS R, K, V
Falling == {f \in [1..K -> 0..V] : \A k \in 2..K : f[k] < f[k - 1]}
Const == [k \in 1..K |-> V - k]
Init == \E ro \in 1..R, rb \in 1..(3 * R), f \in Falling, t \in 0..(V + 1) :
            EInit([ro |-> Unit * ro, rb |-> Unit * rb, pipe |-> f, tp |-> t,
                   grout |-> Const, tg |-> t])
Spec == Init /\ [][ENext]_evars /\ WF_evars(ENext)
SourceKept == [][src' = src]_evars
Ends == <>(stage = "done")
=============================================================================
