----------------------------- MODULE MC_Report ------------------------------
(* Two fields, few heights, two files, every history of operations and     *)
(* reports; and every number of short time steps.                          *)
EXTENDS Report, FiniteSets, SequencesExt
CONSTANTS Heights, Methods, Files, Wide
VARIABLE last         \* the last operation, for the properties
Fields == {1, 2}
Home == 2
Root(c, m) == IF c = "three" /\ m = "hybrid" THEN 1 ELSE 2
Init == RInit([f \in Fields |-> Home], <<"one", "three">>, Files) /\ last = <<"start", 0>>
Next == \/ \E f \in Fields, x \in Heights :
              x # h[f] /\ Other(Move(f, x)) /\ last' = <<"move", f>>
        \/ \E f \in Fields :
              cur[f] # "three" /\ Other(Compute(f)) /\ last' = <<"compute", f>>
        \/ \E f \in Fields, m \in Methods :
              \/ /\ Possible(cur[f], h[f], Home) /\ Other(Begin(f, m))
                 /\ last' = <<"simulate", f>>
              \/ /\ cur[f] = "three" /\ (\E x \in Heights : Other(BeginSize(f, m, x)))
                 /\ last' = <<"size", f>>
              \/ /\ cur[f] # "three" /\ (\E x \in Heights : Other(RefusedSize(f, x)))
                 /\ last' = <<"refused", f>>
        \/ Other(Refresh \/ Finish) /\ UNCHANGED last
        \/ /\ Evaluated /\ phase.sizing
           /\ \E x \in Heights : Other(Try(x, Root(cur[phase.f], phase.m)))
           /\ UNCHANGED last
        \/ \E f \in Fields, n \in Files :
              /\ Possible(cur[f], h[f], Home) /\ Export(f, n)
              /\ last' = IF last[1] \in {"size", "simulate"} /\ last[2] = f
                         THEN <<"exported", n>> ELSE <<"shown", f>>
        \/ \E f \in Fields : Print(f) /\ last' = <<"shown", f>>
Spec == Init /\ [][Next]_<<rvars, last>>
\* what is exported when sizing or simulating is done is that of one height
Exported == last[1] = "exported" => Whole(shelf[last[2]])
\* a report leaves the fields and the other files as they were
Harmless == [][\E n \in Files : shelf'[n] # shelf[n] =>
                 UNCHANGED fvars /\ \A o \in Files \ {n} : shelf'[o] = shelf[o]]_<<rvars, last>>
CleanThen == Idle /\ last[1] \in {"size", "simulate"} => Clean(last[2])
\* the requirement holds for what an export and a printed table keep
ASSUME \A all \in (LongSteps + 1)..Wide :
    /\ Spread(SetToSortSeq(Kept(all, 2, 30), <), all)
    /\ Spread(SetToSortSeq(Kept(all, 1, 50), <), all)
    /\ Cardinality(Kept(all, 2, 30)) <= 2 * 30 + LongSteps
=============================================================================
