----------------------------- MODULE MC_Session -----------------------------
(* Two designs, one file and three boreholes, every history.               *)
EXTENDS Session
CONSTANTS Settings, Bores
VARIABLE was          \* what a find or sizing may not change
Slots == {1, 2}
Plan(k) == IF k = 1 THEN <<1, 3, 3>> ELSE <<1, 3>>
Init == SInit(Slots, {1}, Bores, 2) /\ was = <<>>
Keep == <<design, given, file>>
Note == was' = <<design', given', file'>>
Next == \/ \E s \in Slots, k \in Settings, b \in Bores : New(s, k, b) /\ Note
        \/ \E s \in Slots, k \in Settings : Change(s, k) /\ Note
        \/ \E s \in Slots : Save(s, 1) /\ Note
        \/ \E s \in Slots, b \in Bores :
              (\A q \in Slots : design[q].bore # b) /\ Read(1, s, b) /\ Note
        \/ \E s \in Slots : BeginFind(s) /\ UNCHANGED was
        \/ (Evaluate(Plan) \/ EndFind(Plan)) /\ UNCHANGED was
        \/ \E s \in Slots : Size(s) /\ UNCHANGED was
Spec == Init /\ [][Next]_<<svars, was>>
\* an answer depends on its settings only
Determined == \A s \in Slots : answer[s] # NoAnswer =>
    answer[s].used = Plan(answer[s].set)
Unchanged == was # <<>> => Keep = was
FoundAsSet == [][work.slot # 0 /\ work' = NoWork =>
    answer' = [answer EXCEPT ![work.slot] = Answer(design[work.slot].set, Plan)]]_<<svars, was>>
\* finding or sizing one leaves the others' answers
Others == [][\A s \in Slots : answer'[s] # answer[s] =>
    \A q \in Slots \ {s} : answer'[q] = answer[q]]_<<svars, was>>
=============================================================================
