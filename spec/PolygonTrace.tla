---------------------------- MODULE PolygonTrace ----------------------------
(* Calls of the filter against Polygon (C11).                              *)
EXTENDS Polygon, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, c, bad
Calls == Traces[t].calls
C == Calls[c]
Start(k) == FInit(k.pts, k.poly, k.ri, k.kc)

TInit == /\ t \in DOMAIN Traces /\ c = 1 /\ bad = {}
         /\ Start(Traces[t].calls[1])
Walk == C.out = "ok" /\ FStep /\ UNCHANGED <<t, c, bad>>
Judge == IF C.out # "ok" THEN {"C11.error"}
         ELSE (IF C.obs = out THEN {}
               ELSE IF Len(C.obs) < Len(out) THEN {"C11.removed"}
               ELSE IF Len(C.obs) > Len(out) THEN {"C11.kept"}
               ELSE {"C11.survivors"})
              \cup (IF C.intact THEN {} ELSE {"C11.input-changed"})
Done == /\ Filtered \/ C.out # "ok"
        /\ bad' = bad \cup Judge
        /\ IF c < Len(Calls)
           THEN LET k == Calls[c + 1] IN
                /\ c' = c + 1 /\ pts' = k.pts /\ poly' = k.poly /\ ri' = k.ri
                /\ kc' = k.kc /\ pos' = 0 /\ out' = <<>>
           ELSE /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad'))
                /\ c' = c + 1 /\ UNCHANGED fvars
        /\ UNCHANGED t
TNext == c <= Len(Calls) /\ (Walk \/ Done)
TSpec == TInit /\ [][TNext]_<<t, c, bad, fvars>>
=============================================================================
