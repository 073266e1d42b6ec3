------------------------------ MODULE GenField ------------------------------
(* Histories of operations on two fields, for replay on the real code.     *)
(* Heights are numbered 1..4: least, middle, greatest, that of making.     *)
EXTENDS Field, FiniteSets, Json, TLC
CONSTANTS Length
VARIABLES past, aim
Fields == {1, 2}
Methods == {"hybrid", "hourly"}
Home == 4
\* how a behaviour begins, on the first field
Aims == << <<>>, <<"simulate", "move", "size">>, <<"size", "move", "simulate">>,
         <<"simulate", "compute", "simulate">>, <<"simulate", "tune", "simulate">>,
         <<"tune", "compute", "size">>, <<"compute", "size", "move", "size">>,
         <<"simulate", "tune", "size">>, <<"simulate", "simulate", "size">> >>
Init == /\ \E c \in [Fields -> {"one", "table"}] : FInit([f \in Fields |-> Home], c)
        /\ \E k \in 1..Len(Aims) :
              /\ aim = Aims[k] /\ (aim # <<>> => cur[1] = "table")
              /\ past = <<[op |-> "start", kinds |-> <<cur[1], cur[2]>>, aim |-> k]>>
Aimed(o, f) == LET k == Len(past) IN k <= Len(aim) => (o = aim[k] /\ f = 1)
Last == past[Len(past)]
Do(o) == past' = Append(past, o)
Sizings == {k \in 1..Len(past) : past[k].op = "size"}
Next == /\ Len(past) <= Length
        /\ \/ \E f \in Fields, x \in 1..4 :
                 /\ x # h[f] /\ ~(Last.op = "move" /\ Last.f = f)
                 /\ Aimed("move", f) /\ Move(f, x) /\ Do([op |-> "move", f |-> f, x |-> x])
           \/ \E f \in Fields, m \in Methods :
                 /\ Aimed("simulate", f)
                 /\ Last # [op |-> "simulate", f |-> f, m |-> m] \/ Len(past) % 3 = 0
                 /\ IF Possible(cur[f], h[f], Home) THEN Simulate(f, m)
                    ELSE Refused(f, h[f])
                 /\ Do([op |-> "simulate", f |-> f, m |-> m])
           \/ \E f \in Fields, m \in Methods :
                 /\ Aimed("size", f)
                 /\ Cardinality(Sizings) < 2
                 /\ IF cur[f] # "one" THEN Size(f, m, 2) ELSE RefusedSize(f, 2)
                 /\ Do([op |-> "size", f |-> f, m |-> m])
           \/ \E f \in Fields, o \in 1..2 :
                 /\ o # own[f] /\ Last.op # "tune" /\ Aimed("tune", f) /\ Tune(f, o)
                 /\ Do([op |-> "tune", f |-> f, x |-> o])
           \/ \E f \in Fields :
                 /\ (cur[f] # "three" \/ of[f] # own[f]) /\ Aimed("compute", f) /\ Compute(f)
                 /\ Do([op |-> "compute", f |-> f])
Tell == /\ Len(past) = Length + 1 /\ PrintT("BEHAVIOUR " \o ToJson(past))
        /\ Do([op |-> "end"]) /\ UNCHANGED fvars
Spec == Init /\ [][(Next \/ Tell) /\ UNCHANGED aim]_<<fvars, past, aim>>
=============================================================================
