----------------------------- MODULE FieldTrace -----------------------------
(* Recorded histories of two fields against Field (C29).  refs are fields  *)
(* made anew at a height with given curves and simulated once.             *)
EXTENDS Field, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
T == Traces[t]
O == T.ops[i]
Near(a, b, tol) == BNear(a, b, tol)
Alike(a, b, tol) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Near(a[j], b[j], tol)
Blank == <<>>
TInit == /\ t \in DOMAIN Traces /\ i = 1 /\ bad = {}
         /\ FInit(Traces[t].start, Traces[t].kinds)

\* a field made anew that should have the results described by w
Refs(f, w) == {j \in 1..Len(T.refs) : LET r == T.refs[j] IN
                 /\ r.f = f /\ r.cur = w.cur /\ r.of = w.of /\ r.own = w.own
                 /\ r.m = w.m /\ r.h = w.h}
Ref(f, w) == T.refs[CHOOSE j \in Refs(f, w) : TRUE]
SameResults(f, w, s) ==
    IF w = Unclear THEN TRUE ELSE
    IF w = None THEN s.tf = Blank /\ s.tb = Blank
    ELSE LET r == Ref(f, w) IN Alike(r.res.tf, s.tf, T.tol) /\ Alike(r.res.tb, s.tb, T.tol)
SameTold(r, o) == /\ Alike(r.told.ext, o.ext, T.tol) /\ Near(r.told.rb, o.rb, T.tol)
                  /\ Alike(r.told.short, o.short, T.tol)
(* what is seen of both fields after an operation *)
Seen(h1, c1, r1) == UNION {LET s == O.now[f] IN
    (IF s.h = h1[f] THEN {} ELSE {"C29.height"})
    \cup (IF SameResults(f, r1[f], s.res) THEN {} ELSE {"C29.results"})
    \cup (IF c1[f] # "three" \/ s.keys = T.three THEN {} ELSE {"C29.curves"})
    \cup (IF Len(s.xy) = Len(T.xy) /\ \A j \in 1..Len(s.xy) : s.xy[j] = T.xy[j]
          THEN {} ELSE {"C29.field"}) : f \in DOMAIN h1}
Want == [h |-> h[O.f], own |-> own[O.f], cur |-> cur[O.f], of |-> of[O.f], m |-> O.m]
SizeRef == T.sizes[CHOOSE j \in 1..Len(T.sizes) :
              LET r == T.sizes[j] IN r.f = O.f /\ r.cur = cur[O.f] /\ r.m = O.m
                                     /\ r.of = of[O.f] /\ r.own = own[O.f]]

MoveT == O.op = "move" /\ Move(O.f, O.to) /\ bad' = bad \cup Seen(h', cur', res')
TuneT == O.op = "tune" /\ Tune(O.f, O.x) /\ bad' = bad \cup Seen(h', cur', res')
ComputeT ==
    /\ O.op = "compute" /\ Compute(O.f)
    /\ bad' = bad \cup
        IF O.out # "ok" THEN {"C29.error"} ELSE Seen(h', cur', res')
        \cup (IF Len(O.curves) = 3 /\ \A j \in 1..3 :
                     Alike(O.curves[j], T.curves[O.f][own[O.f]][j], T.tol)
              THEN {} ELSE {"C29.curves"})
SimulateT ==
    /\ O.op = "simulate"
    /\ LET r == Ref(O.f, Want) IN
       IF r.out # "ok"
       THEN /\ Refused(O.f, h[O.f])
            /\ bad' = bad \cup (IF O.out = "ok" THEN {"C29.answered"} ELSE {})
                          \cup Seen(h', cur', res')
       ELSE /\ Simulate(O.f, O.m)
            /\ bad' = bad \cup (IF O.out # "ok" THEN {"C29.error"}
                                ELSE IF SameTold(r, O.told) THEN {} ELSE {"C29.told"})
                          \cup Seen(h', cur', res')
SizeT ==
    /\ O.op = "size"
    /\ LET s == SizeRef x == O.now[O.f].h IN
       IF s.out # "ok"
       THEN /\ RefusedSize(O.f, x)
            /\ bad' = bad \cup (IF O.out = "ok" THEN {"C29.answered"} ELSE {})
                          \cup Seen(h', cur', res')
       ELSE /\ Size(O.f, O.m, x)
            /\ bad' = bad \cup (IF O.out # "ok" THEN {"C29.error"}
                                ELSE IF SameTold(Ref(O.f, [Want EXCEPT !.h = x]), O.told)
                                     THEN {} ELSE {"C29.told"})
                          \cup (IF Near(s.h, x, T.htol) THEN {} ELSE {"C29.sized"})
                          \cup Seen(h', cur', res')
Op == /\ i <= Len(T.ops) /\ (MoveT \/ TuneT \/ ComputeT \/ SimulateT \/ SizeT)
      /\ i' = i + 1 /\ UNCHANGED t
End == /\ i = Len(T.ops) + 1 /\ i' = i + 1
       /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad))
       /\ UNCHANGED <<fvars, t, bad>>
TNext == Op \/ End
TSpec == TInit /\ [][TNext]_<<fvars, t, i, bad>>
=============================================================================
