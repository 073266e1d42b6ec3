----------------------------- MODULE GenSession -----------------------------
(* Histories of a session, for replay.  Settings 1..8 are two problems with*)
(* four variations each; slots 1 and 2, files 1 and 2, boreholes 1 and 2   *)
(* (3 and 4 for designs that are read into slot 1 and 2).                  *)
EXTENDS Session, Json, TLC
CONSTANTS Length, Finds
VARIABLES past, aim
Slots == {1, 2}
Files == {1, 2}
Plan(k) == <<1>>
Problem(k) == (k - 1) \div 4
\* how a behaviour begins, with slot 1 and file 1 (and 2 where it says so)
Aims == << <<>>, <<"new", "save", "read", "change", "save", "read", "find">>,
         <<"new", "save", "read 2", "change", "save", "read 2", "find 2">>,
         <<"new", "save", "change", "save", "away", "read", "find">>,
         <<"new", "find", "new 2", "find 2", "find">>,
         <<"new", "find", "change", "find">>, <<"new", "find", "size", "find">>,
         <<"new", "save", "find", "read 2", "find 2">> >>
Aimed(o) == LET k == Len(past) IN k <= Len(aim) => o = aim[k]
Named(o, s) == o \o (IF s = 2 THEN " 2" ELSE "")
Init == /\ SInit(Slots, Files, 1..4, 1)
        /\ \E k \in 1..Len(Aims) : aim = Aims[k] /\ past = <<[op |-> "start", aim |-> k]>>
Do(o) == past' = Append(past, o)
Last == past[Len(past)]
Many(S) == Len(SelectSeq(past, LAMBDA o : o.op \in S))
Work == Many({"find", "size", "away"})
Left == Length + 1 - Len(past)
Next ==
    /\ Len(past) <= Length /\ Work < Finds
    /\ \/ \E s \in Slots, k \in {1, 5}, b \in {1, 2} :
             /\ ~Here(s) \/ (answer[s] # NoAnswer /\ Left > 4)
             /\ Aimed(Named("new", s)) /\ (aim # <<>> /\ s = 2 => k = 5) /\ New(s, k, b) /\ Do([op |-> "new", s |-> s, k |-> k, b |-> b])
       \/ \E s \in Slots, k \in 1..8 :
             /\ Aimed(Named("change", s)) /\ Here(s) /\ k # design[s].set /\ Problem(k) = Problem(design[s].set)
             /\ Last.op # "change" /\ Left > 1 /\ (k % 2 = Len(past) % 2)
             /\ Change(s, k) /\ Do([op |-> "change", s |-> s, k |-> k])
       \/ \E s \in Slots, n \in Files :
             /\ Aimed(Named("save", s)) /\ (Len(past) <= Len(aim) => n = 1)
             /\ Last.op # "save" /\ Left > 1
             /\ Save(s, n) /\ Do([op |-> "save", s |-> s, n |-> n])
       \/ \E s \in Slots, n \in Files :
             /\ Aimed(Named("read", s)) /\ (Len(past) <= Len(aim) => n = 1)
             /\ Last.op # "read" /\ Left > 1 /\ Read(n, s, 2 + s) /\ Do([op |-> "read", s |-> s, n |-> n])
       \/ \E s \in Slots, again \in 1..3 :
             /\ Aimed(Named("find", s)) /\ Find(s, Plan) /\ Do([op |-> "find", s |-> s])
       \/ \E s \in Slots, again \in 1..3 :
             /\ Aimed(Named("size", s)) /\ ~answer[s].sized
             /\ Size(s) /\ Do([op |-> "size", s |-> s])
       \/ \E n \in Files, again \in 1..3 :
             /\ Aimed("away") /\ (Len(past) <= Len(aim) => n = 1)
             /\ Many({"away"}) = 0
             /\ Elsewhere(n) /\ Do([op |-> "away", n |-> n])
Tell == /\ (Len(past) = Length + 1 \/ Work = Finds) /\ Last.op # "end"
        /\ PrintT("BEHAVIOUR " \o ToJson(past))
        /\ Do([op |-> "end"]) /\ UNCHANGED svars
Spec == Init /\ [][(Next \/ Tell) /\ UNCHANGED aim]_<<svars, past, aim>>
=============================================================================
