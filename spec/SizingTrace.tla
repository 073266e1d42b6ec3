---------------------------- MODULE SizingTrace -----------------------------
(***************************************************************************)
(* Recorded sizings against Sizing (C19).  Heights are in millionths of a  *)
(* metre, recorded as heights and excess at a few heights, between which   *)
(* the excess is linear.                                                   *)
(***************************************************************************)
EXTENDS Sizing, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, bad
T == Traces[t]
Mm == 1000000
\* sign of the excess at height h (millionths), linear between two points
Seg(h) == CHOOSE j \in 1..(Len(T.prof) - 1) :
             T.prof[j].h <= h /\ h <= T.prof[j + 1].h
\* excess (a big integer) times a positive length
ExAt(h) == LET p == T.prof[Seg(h)] q == T.prof[Seg(h) + 1] IN
    BAdd(BMulI(p.e, q.h - h), BMulI(q.e, h - p.h))
SignOf(b) == IF BIsZero(b) THEN 0 ELSE IF BNegative(b) THEN -1 ELSE 1
Ex(h) == SignOf(ExAt(h))
Tol == T.tol
Warnings == {T.warned[j] : j \in 1..Len(T.warned)}
Warned == IF T.h = T.lim[1] /\ Ex(T.lim[1]) < 0 THEN "min" \in Warnings
          ELSE IF T.h = T.lim[2] /\ Ex(T.lim[2]) > 0 THEN "max" \in Warnings
          ELSE IF T.h \in T.lim[1]..T.lim[1] + Tol THEN "max" \notin Warnings
          ELSE IF T.h \in (T.lim[2] - Tol)..T.lim[2] THEN "min" \notin Warnings
          ELSE Warnings = {}
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Judged ==
    IF T.out # "ok" THEN {"C19.error"}
    ELSE (IF Good(Ex, T.lim[1], T.lim[2], Tol, T.h) THEN {} ELSE {"C19.height"})
    \cup (IF Warned THEN {} ELSE {"C19.warning"})
    \cup (IF T.left THEN {} ELSE {"C19.left"})
TInit == /\ t \in DOMAIN Traces /\ bad = {}
         /\ ZInit(Traces[t].lim[1], Traces[t].lim[2])
\* the evaluations the code made are free; only its result is judged
TNext == /\ res = 0 /\ at = 0 /\ bad' = Judged /\ Verdict(bad')
         /\ at' = 1 /\ res' = 1 /\ UNCHANGED <<lo, hi, t>>
TSpec == TInit /\ [][TNext]_<<zvars, t, bad>>
=============================================================================
