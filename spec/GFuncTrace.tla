----------------------------- MODULE GFuncTrace -----------------------------
(***************************************************************************)
(* Recorded sequences of queries against GFunc (C20).  Heights in mm,      *)
(* columns: one per time, then the radius, then the depth, in millionths;  *)
(* answers have 12 decimals.                                               *)
(***************************************************************************)
EXTENDS GFunc, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, k, bad
T == Traces[t]
mine == <<t, k, bad>>
N == Len(T.H)
TInit == t \in DOMAIN Traces /\ k = 1 /\ bad = {} /\ GInit
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
\* accuracy of the arithmetic of the kind, relative to the terms summed
Loose(kind) == IF kind = "lagrange" THEN BPow10(6) ELSE BPow10(9)
Same(v, S, y, q) ==
    LET c == Com(T.H, S)
        w == BMul(Poly(T.H, S, y, q.x), BPow10(6))
        tol == BMul(Gross(T.H, S, y, q.x), BPow10(6)) IN
    BLeq(BMul(Loose(used'), BAbs(BSub(BMul(v, c), w))),
         BAdd(tol, BMul(BMulI(BAbs(c), 4), Loose(used'))))
NearTo(v, w) == BLeq(BMul(BPow10(9), BAbs(BSub(v, w))),
                     BAdd(BMulI(BAbs(w), 10), BPow10(12)))
Value(q, j) ==
    LET S == Nodes(T.H, T.y[j], q.kind, q.x) IN
    IF S # <<>> THEN Same(q.v[j], S, T.y[j], q) ELSE NearTo(q.v[j], q.ref[j])
Earlier(q) == {i \in 1..(k - 1) : /\ T.q[i].x = q.x /\ T.q[i].out = "ok"
                                  /\ Used(T.q[i].kind, N) = used'}
Margin == 2          \* mm, about the ends either is right
JudgeOne(q) ==
    LET own == q.x = T.H[1] IN
    IF q.kind # "default" THEN {}
    ELSE IF own /\ q.out = "ok" /\ \A j \in 1..Len(T.y) :
             BEq(q.v[j], BMul(BInt(T.y[j][1]), BPow10(6))) THEN {}
    ELSE IF ~own /\ q.out = "ValueError" THEN {} ELSE {"C20.single"}
JudgeMany(q) ==
    IF q.out # "ok" THEN {"C20.error"}
    ELSE (IF \A j \in 1..(Len(T.y) - 2) : Value(q, j) THEN {} ELSE {"C20.value"})
    \cup (IF \A j \in {Len(T.y) - 1, Len(T.y)} : Value(q, j) THEN {}
          ELSE {"C20.geometry"})
    \cup (IF q.x - T.heq[k] \in -1..1 THEN {} ELSE {"C20.height"})
    \cup (IF \A i \in Earlier(q) : T.q[i].v = q.v THEN {} ELSE {"C20.memory"})
    \cup (IF q.x \in (T.H[1] - Margin)..(T.H[1] + Margin)
             \/ q.x \in (T.H[N] - Margin)..(T.H[N] + Margin)
             \/ q.warned = Outside(T.H, q.x) THEN {} ELSE {"C20.warning"})
Step == /\ k <= Len(T.q)
        /\ LET q == T.q[k] IN
           /\ IF N = 1 THEN UNCHANGED gvars ELSE Query(N, q.x, q.kind)
           /\ bad' = bad \cup (IF N = 1 THEN JudgeOne(q) ELSE JudgeMany(q))
                  \cup (IF q.kept THEN {} ELSE {"C20.curves"})
        /\ k' = k + 1
        /\ k = Len(T.q) => Verdict(bad')
        /\ UNCHANGED t
TSpec == TInit /\ [][Step]_<<gvars, mine>>
=============================================================================
