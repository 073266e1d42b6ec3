------------------------------ MODULE MC_Field ------------------------------
(* Two fields at few heights, every history of operations.                 *)
EXTENDS Field, FiniteSets
CONSTANTS Heights, Methods, Kinds, Settings
VARIABLE before       \* heights and results when the operation began
Fields == {1, 2}
Root(c, m) == IF c = "three" /\ m = "hybrid" THEN 2 ELSE 3
Init == /\ \E c \in [Fields -> Kinds] : FInit([f \in Fields |-> 1], c)
        /\ before = <<h, cur, res, own>>
Note == before' = <<h, cur, res, own>>
Next == \/ \E f \in Fields, x \in Heights : x # h[f] /\ Move(f, x) /\ Note
        \/ \E f \in Fields, o \in Settings : o # own[f] /\ Tune(f, o) /\ Note
        \/ \E f \in Fields : (cur[f] # "three" \/ of[f] # own[f]) /\ Compute(f) /\ Note
        \/ \E f \in Fields, m \in Methods :
              \/ Possible(cur[f], h[f], 1) /\ Begin(f, m) /\ Note
              \/ cur[f] # "one" /\ (\E x \in Heights : BeginSize(f, m, x)) /\ Note
        \/ (Refresh \/ Finish) /\ UNCHANGED before
        \/ /\ Evaluated /\ phase.sizing
           /\ \E x \in Heights : Try(x, Root(cur[phase.f], phase.m))
           /\ UNCHANGED before
Spec == Init /\ [][Next]_<<fvars, before>>
\* an operation on one field leaves the other as it was
Apart == phase.step > 0 => \A f \in Fields \ {phase.f} :
    h[f] = before[1][f] /\ cur[f] = before[2][f] /\ res[f] = before[3][f] /\ own[f] = before[4][f]
\* the end of the steps is the operation as it is seen from outside
Sized == [][phase.sizing /\ phase'.step = 0 =>
    LET f == phase.f r == Root(cur[f], phase.m) IN
    h'[f] = r /\ res'[f] = Anew(r, own[f], cur[f], of[f], phase.m)]_<<fvars, before>>
Simulated == [][phase.step > 0 /\ ~phase.sizing /\ phase'.step = 0 =>
    LET f == phase.f IN
    h' = before[1] /\ res'[f] = Anew(h[f], own[f], cur[f], of[f], phase.m)]_<<fvars, before>>
=============================================================================
