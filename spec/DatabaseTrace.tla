--------------------------- MODULE DatabaseTrace ----------------------------
(***************************************************************************)
(* Recorded g-function objects against Database (C28): read from a         *)
(* database, computed live, or rescaled to another spacing.  Heights,      *)
(* radii, depths and coordinates in millionths, curves with 9 decimals.    *)
(***************************************************************************)
EXTENDS Database, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, bad
T == Traces[t]
TInit == /\ t \in DOMAIN Traces /\ bad = {}
         /\ DInit(Traces[t].src, 2000000)
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Wrong == T.out # "ok"
Refuse == Wrong /\ k = 1 /\ k' = Len(src) + 2 /\ bad' = {"C28.error"}
          /\ Verdict(bad') /\ UNCHANGED <<src, default, cur, t>>
ReadT == ~Wrong /\ Read /\ UNCHANGED <<t, bad>>
Hs == [j \in 1..Len(cur) |-> cur[j].h]
Field(f) == [j \in 1..Len(cur) |-> cur[j][f]]
CurveNear(a, b) == Len(a) = Len(b) /\
    \A j \in 1..Len(a) : BNear(a[j], b[j], BInt(T.tol))
Scaled(c, o) == \A j \in 1..2 : BNear(BMulI(BInt(o[j]), T.B),
                                      BMulI(BInt(c[j]), T.B2), BInt(T.B))
Judged ==
    (IF T.h = Hs THEN {} ELSE {"C28.heights"})
    \cup (IF T.h = Hs /\ T.r = Field("r") THEN {} ELSE {"C28.radius"})
    \cup (IF T.h = Hs /\ T.d = Field("d") THEN {} ELSE {"C28.depth"})
    \cup (IF /\ Len(T.g) = Len(cur)
             /\ \A j \in 1..Len(cur) : CurveNear(T.g[j], cur[j].g)
          THEN {} ELSE {"C28.curve"})
    \cup (IF T.b = src[1].b THEN {} ELSE {"C28.spacing"})
    \cup (IF T.xy = T.xy0 THEN {} ELSE {"C28.field"})
    \cup (IF /\ Len(T.xy2) = Len(T.xy0)
             /\ \A j \in 1..Len(T.xy0) : Scaled(T.xy0[j], T.xy2[j])
          THEN {} ELSE {"C28.scaled"})
Judge == /\ ~Wrong /\ ReadAll /\ k = Len(src) + 1
         /\ k' = k + 1 /\ bad' = Judged /\ Verdict(bad')
         /\ UNCHANGED <<src, default, cur, t>>
TNext == Refuse \/ ReadT \/ Judge
TSpec == TInit /\ [][TNext]_<<dvars, t, bad>>
=============================================================================
