---------------------------- MODULE CombineTrace ----------------------------
(* Recorded combined curves against Combine (C21); 12 decimals, the times  *)
(* and short time step values unchanged, the long ones within tol.         *)
EXTENDS Combine, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, bad
T == Traces[t]
TInit == /\ t \in DOMAIN Traces /\ bad = {}
         /\ CInit(Traces[t].sts, Traces[t].lts, Traces[t].ln)
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Refuse == /\ ~done /\ i = 1 /\ out = <<>> /\ T.out # "ok"
          /\ done' = TRUE /\ bad' = {"C21.error"} /\ Verdict(bad')
          /\ UNCHANGED <<sts, lts, ln, i, out, t>>
(* All Take steps at once: a real curve has some 1800 points *)
TakeT == /\ T.out = "ok" /\ ~done /\ Earlier
         /\ i' = CHOOSE j \in (i + 1)..(Len(sts) + 1) :
               /\ j > Len(sts) \/ ~BLt(sts[j].x, lts[1].x)
               /\ \A b \in i..(j - 1) : BLt(sts[b].x, lts[1].x)
         /\ out' = out \o SubSeq(sts, i, i' - 1)
         /\ UNCHANGED <<sts, lts, ln, done, t, bad>>
SameX(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j].x = b[j].x
Short == Len(out') - Len(lts)
Judged == IF Len(T.g) # Len(out') THEN {"C21.points"}
          ELSE (IF SameX(T.g, out') THEN {} ELSE {"C21.times"})
          \cup (IF \A j \in 1..Short : T.g[j].y = out'[j].y THEN {}
                ELSE {"C21.short"})
          \cup (IF \A j \in (Short + 1)..Len(out') :
                      BNear(T.g[j].y, out'[j].y, T.tol) THEN {}
                ELSE {"C21.long"})
          \cup (IF Increasing(T.g) THEN {} ELSE {"C21.increasing"})
RestT == /\ T.out = "ok" /\ Rest
         /\ bad' = Judged /\ Verdict(bad') /\ UNCHANGED t
TNext == Refuse \/ TakeT \/ RestT
TSpec == TInit /\ [][TNext]_<<cvars, t, bad>>
=============================================================================
