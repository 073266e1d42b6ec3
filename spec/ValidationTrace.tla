-------------------------- MODULE ValidationTrace ---------------------------
(* Recorded requests and what became of them against Validation (C26): the *)
(* observed answer must be one that the checks lead to.                    *)
EXTENDS Validation, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
T == Traces[t]
TInit == /\ t \in DOMAIN Traces /\ i = 1 /\ bad = {}
         /\ req = [kind |-> "none"] /\ at = 0 /\ answer = "none"
AskT == at = 0 /\ i <= Len(T.asked) /\ answer = "none" /\ Ask(T.asked[i].q)
        /\ UNCHANGED <<t, i, bad>>
Think == at > 0 /\ (Pass \/ Refuse \/ Answer) /\ UNCHANGED <<t, i, bad>>
Judge == /\ at = 0 /\ answer # "none"
         /\ bad' = bad \cup
              (IF T.asked[i].got = answer THEN {}
               ELSE IF answer = "refused"
                    THEN {"C26.accepted-" \o req.kind}
                    ELSE {"C26.refused-" \o req.kind})
         /\ answer' = "none" /\ i' = i + 1 /\ UNCHANGED <<req, at, t>>
End == /\ i = Len(T.asked) + 1 /\ i' = i + 1
       /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad))
       /\ UNCHANGED <<vvars, t, bad>>
TNext == AskT \/ Think \/ Judge \/ End
TSpec == TInit /\ [][TNext]_<<vvars, t, i, bad>>
=============================================================================
