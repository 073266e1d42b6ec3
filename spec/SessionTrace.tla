---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions against Session (C24).  refs: designs made with given *)
(* settings, found and sized once, in a process of their own.              *)
EXTENDS Session, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
T == Traces[t]
O == T.ops[i]
Slots == {1, 2}
Plan(k) == <<k>>
TInit == /\ t \in DOMAIN Traces /\ i = 1 /\ bad = {}
         /\ SInit(Slots, {1, 2}, 1..4, Traces[t].H)
RefOf(k) == T.refs[CHOOSE j \in 1..Len(T.refs) : T.refs[j].k = k]
Tol == <<20>>
Alike(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : BNear(a[j], b[j], Tol)
SameFound(a, b) ==
    /\ Len(a.xy) = Len(b.xy) /\ \A j \in 1..Len(a.xy) : Alike(a.xy[j], b.xy[j])
    /\ Alike(a.num, b.num) /\ Alike(a.temp, b.temp)
Empty(a) == a.xy = <<>>
(* both designs and what was found of them, after an operation *)
Seen(d1, a1) == UNION {
    (IF d1[s] = Absent \/ O.now[s] = RefOf(d1[s].set).settings
     THEN {} ELSE {"C24.settings"})
    \cup (IF a1[s] = NoAnswer
          THEN IF Empty(O.has[s]) THEN {} ELSE {"C24.found"}
          ELSE LET r == RefOf(a1[s].set) IN
               IF SameFound(O.has[s], IF a1[s].sized THEN r.sized ELSE r.found)
               THEN {} ELSE {"C24.found"}) : s \in Slots}
Judge(more) == bad' = bad \cup more \cup Seen(design', answer')
Ok(c) == IF O.out = "ok" THEN {} ELSE {c}

NewT == O.op = "new" /\ New(O.s, O.k, O.b) /\ Judge({})
ChangeT == O.op = "change" /\ Change(O.s, O.k) /\ Judge({})
SaveT == O.op = "save" /\ Save(O.s, O.n) /\ Judge(Ok("C24.saved"))
ReadT == /\ O.op = "read" /\ Read(O.n, O.s, 2 + O.s)
         /\ IF O.out = "ok" THEN Judge({}) ELSE bad' = bad \cup {"C24.read"}
FindT == /\ O.op = "find"
         /\ LET r == RefOf(design[O.s].set) IN
            IF r.out # "ok"
            THEN Fail(O.s) /\ Judge(IF O.out = r.out THEN {} ELSE {"C24.outcome"})
            ELSE /\ Find(O.s, Plan)
                 /\ IF O.out = "ok" THEN Judge({}) ELSE bad' = bad \cup {"C24.outcome"}
SizeT == /\ O.op = "size"
         /\ IF answer[O.s] = NoAnswer THEN UNCHANGED svars /\ Judge({})
            ELSE /\ Size(O.s)
                 /\ Judge(IF O.out = RefOf(answer[O.s].set).szout THEN {}
                          ELSE {"C24.sized"})
AwayT == /\ O.op = "away" /\ Elsewhere(O.n)
         /\ LET a == T.aways[CHOOSE j \in 1..Len(T.aways) : T.aways[j].i = i]
                r == RefOf(file[O.n].set) IN
            Judge((IF a.settings = r.settings THEN {} ELSE {"C24.file"})
                  \cup (IF a.out = r.out /\ SameFound(a.found, r.found)
                        THEN {} ELSE {"C24.elsewhere"}))
Op == /\ i <= Len(T.ops)
      /\ (NewT \/ ChangeT \/ SaveT \/ ReadT \/ FindT \/ SizeT \/ AwayT)
      /\ i' = i + 1 /\ UNCHANGED t
End == /\ i = Len(T.ops) + 1 /\ i' = i + 1
       /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad))
       /\ UNCHANGED <<svars, t, bad>>
TNext == Op \/ End
TSpec == TInit /\ [][TNext]_<<svars, t, i, bad>>
=============================================================================
