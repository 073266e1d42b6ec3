------------------------------ MODULE BheTrace ------------------------------
(* Recorded heat exchangers against Bhe (C22).  The value of a quantity is *)
(* that of a newly built heat exchanger whose parameters agree on those    *)
(* the quantity depends on.                                                *)
EXTENDS Bhe, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
T == Traces[t]
\* the borehole resistance comes from a solver with a cache of tolerance
Tol(q) == IF q = "rb" THEN T.tolrb ELSE T.tol
Close(q, a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : BNear(a[j], b[j], Tol(q))
News(w, q) == {j \in 1..Len(T.fresh) : Restrict(T.fresh[j].p, Dep[q]) = w[q]}
Matches(w, q, v) == \E j \in News(w, q) : Close(q, T.fresh[j].q[q], v)
\* equal parameters give equal values, whatever the others are
Depends == \A q \in Quantities : \A j, k \in 1..Len(T.fresh) :
    Restrict(T.fresh[j].p, Dep[q]) = Restrict(T.fresh[k].p, Dep[q])
        => Close(q, T.fresh[j].q[q], T.fresh[k].q[q])
Share == \A j \in 1..Len(T.fresh) : LET f == T.fresh[j].q["flow"] IN
    BNear(BMulI(f[2], T.div), f[1], T.tol)

TInit == /\ t \in DOMAIN Traces /\ i = 1 /\ BInit(Traces[t].start)
         /\ bad = (IF Depends THEN {} ELSE {"C22.depends"})
                  \cup (IF Share THEN {} ELSE {"C22.share"})
O == T.ops[i]
Stale(w, o) == {"C22." \o q : q \in {q \in Quantities : ~Matches(w, q, o.q[q])}}
Told(w, o) == (IF Len(o.rb) > 0 /\ ~Matches(w, "rb", o.rb) THEN {"C22.returned"} ELSE {})
    \cup (IF \A j \in 1..Len(o.shown) : LET s == o.shown[j] IN
              \E k \in News(w, s.g) : BNear(T.fresh[k].q[s.g][s.i], s.v, T.tol4)
          THEN {} ELSE {"C22.report"})
Judged(w) == Stale(w, O) \cup Told(w, O)
SetT == /\ O.op = "set" /\ Set(O.f, O.v) /\ UNCHANGED bad
UpdT == /\ O.op \in {"update", "ask"} /\ ~(O.op = "ask" /\ O.m = 0 /\ O.fl = 0)
        /\ Update(O.m, O.fl)
        /\ bad' = bad \cup (IF O.out # "ok" THEN {"C22.error"} ELSE Judged(val'))
AskT == /\ O.op = "ask" /\ O.m = 0 /\ O.fl = 0 /\ UNCHANGED bvars
        /\ bad' = bad \cup (IF O.out # "ok" THEN {"C22.error"}
                            ELSE IF Synced THEN Judged(val) ELSE {})
Op == /\ i <= Len(T.ops) /\ (SetT \/ UpdT \/ AskT) /\ i' = i + 1
      /\ UNCHANGED t
End == /\ i = Len(T.ops) + 1 /\ i' = i + 1
       /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad))
       /\ UNCHANGED <<bvars, t, bad>>
TNext == Op \/ End
TSpec == TInit /\ [][TNext]_<<bvars, t, i, bad>>
=============================================================================
