----------------------------- MODULE GenReport ------------------------------
(* Histories of reports for replay on the real code.  Heights are numbered *)
(* 1..4: least, middle, greatest, and where a search leaves its field: a   *)
(* search of zones leaves it sized.                                        *)
EXTENDS Report, Json, TLC
CONSTANTS Length
VARIABLE past
Fields == {1, 2}
Files == {1, 2}
Home == 4
Init == /\ \E c \in {<<"one", "one">>, <<"one", "one">>, <<"one", "three">>} :
              /\ RInit([f \in Fields |-> Home], c, Files)
              /\ past = <<[op |-> "start", kinds |-> c]>>
Last == past[Len(past)]
Do(o) == past' = Append(past, o)
Many(op) == Len(SelectSeq(past, LAMBDA o : o.op = op))
Able(f) == Possible(cur[f], h[f], Home)
Next == /\ Len(past) <= Length
        /\ \/ \E f \in Fields, x \in 1..4 :
                 /\ x # h[f] /\ ~(Last.op = "move" /\ Last.f = f) /\ Many("move") < 3
                 /\ Other(Move(f, x)) /\ Do([op |-> "move", f |-> f, x |-> x])
           \/ \E f \in Fields, m \in {"hybrid", "hourly"} :
                 /\ Last.op # "simulate" /\ (cur[f] # "one" \/ Able(f))
                 /\ Other(Simulate(f, m))
                 /\ Do([op |-> "simulate", f |-> f, m |-> m])
           \/ \E f \in Fields, again \in 1..2 :
                 /\ Many("size") < 3 /\ (cur[f] # "one" \/ Len(past) % 4 = 0)
                 /\ Other(IF cur[f] # "one" THEN Size(f, "hybrid", 2) ELSE RefusedSize(f, 2))
                 /\ Do([op |-> "size", f |-> f, m |-> "hybrid"])
           \/ \E f \in Fields, again \in 1..2 :
                 /\ cur[f] # "three" /\ Other(Compute(f))
                 /\ Do([op |-> "compute", f |-> f])
           \/ \E f \in Fields, n \in Files :
                 /\ ~(Last.op = "export" /\ Last.f = f)
                 /\ IF Able(f) THEN Export(f, n) ELSE Other(Refused(f, h[f]))
                 /\ Do([op |-> "export", f |-> f, n |-> n])
           \/ \E f \in Fields, again \in 1..2 :
                 /\ Last.op # "print"
                 /\ Print(f) /\ Do([op |-> "print", f |-> f])
Tell == /\ Len(past) = Length + 1 /\ PrintT("BEHAVIOUR " \o ToJson(past))
        /\ Do([op |-> "end"]) /\ UNCHANGED rvars
Spec == Init /\ [][Next \/ Tell]_<<rvars, past>>
=============================================================================
