---------------------------- MODULE SearchTrace ----------------------------
(***************************************************************************)
(* Recorded searches against Search: for each trace the search machine is  *)
(* run on the recorded problem to its end, then the recorded outcome, the  *)
(* heat exchanger left behind and all evaluated candidates are judged.     *)
(***************************************************************************)
EXTENDS Search, Candidate, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t,      \* trace
          bad     \* clauses that fail, <<>> until judged

tvars == <<t, bad>>
T == Traces[t]
Judged == bad # <<>>

TInit == /\ t \in DOMAIN Traces
         /\ bad = <<>>
         /\ SearchInit([mode |-> Traces[t].mode, doms |-> Traces[t].doms])

Fld(d, i) == T.doms[d][i]
OutField == T.out.kind = "field"
Known(d, i) == d \in DOMAIN T.doms /\ i \in DOMAIN T.doms[d]
KnownOut == OutField /\ Known(T.out.dom, T.out.idx)
RefusedObs == T.out.kind = "raised" /\ T.out.type = "ValueError"
Mono == FallingProblem(prob)

(* Fields are compared by position, but the first borehole layout of a     *)
(* problem may only be listed once, so positions are unique.               *)
SameField == KnownOut /\ outcome.kind = "field"
             /\ T.out.dom = outcome.dom /\ T.out.idx = outcome.idx

F == T.final[1]
HeightOfEval(e, H) == e.H = H /\ e.gH = <<H>>

LeftBehind(h, gH) ==
    IF T.final = <<>> THEN {"noghe"} ELSE
    (IF F.dom # T.out.dom \/ F.idx # T.out.idx THEN {"field"} ELSE {})
    \cup (IF F.H # h THEN {"height"} ELSE {})
    \cup (IF F.gH # gH THEN {"gfunction"} ELSE {})
    \cup (IF Known(F.dom, F.idx)
          THEN EvalErrors(T, Fld(F.dom, F.idx), F) ELSE {"unknown"})

C01 == IF T.mode # "1d" \/ ~Falling(list) \/ ~HeightHelps(list) THEN {}
       ELSE IF outcome.kind # "field" THEN {}
       ELSE IF ~SameField THEN {"C01.first"}
       ELSE (IF T.out.key # T.out.idx - 1 THEN {"C01.key"} ELSE {})
            \cup {"C01.ghe." \o x : x \in LeftBehind(T.maxH, <<T.maxH>>)}

C02 == LET helps == \A d \in DOMAIN prob.doms : HeightHelps(prob.doms[d])
           none == \A d \in DOMAIN prob.doms : ~SomeSufficient(prob.doms[d])
       IN  IF ~helps THEN {} ELSE
           IF T.out.kind = "none" THEN {"C02.nothing"}
           ELSE IF T.out.kind = "raised" /\ ~RefusedObs THEN {"C02.error"}
           ELSE IF OutField /\ ~KnownOut THEN {"C02.unknown"}
           ELSE (IF OutField /\ ~Suff(Fld(T.out.dom, T.out.idx).e)
                 THEN {"C02.insufficient"} ELSE {})
                \cup (IF OutField /\ (none \/ (Mono /\ outcome = Refused))
                      THEN {"C02.accepted"} ELSE {})
                \cup (IF RefusedObs /\ Mono /\ outcome.kind = "field"
                      THEN {"C02.refused"} ELSE {})
                \cup (IF OutField /\ T.final # <<>> /\
                         (F.dom # T.out.dom \/ F.idx # T.out.idx)
                      THEN {"C02.ghe"} ELSE {})

C03 == IF T.mode # "2d" \/ ~Mono THEN {}
       ELSE IF outcome = Refused THEN (IF RefusedObs THEN {} ELSE {"C03.refuse"})
       ELSE IF ~SameField THEN {"C03.first"}
       ELSE (IF T.out.key # T.out.idx - 1 THEN {"C03.key"} ELSE {})
            \cup {"C03.ghe." \o x : x \in LeftBehind(T.maxH, <<T.maxH>>)}

SizedSet == {<<T.sized[i][1], T.sized[i][2]>> : i \in DOMAIN T.sized}
ExpectedSized == {<<start + i - 1, drill[i].idx>> : i \in DOMAIN drill}

\* any of the fields with the least drilling will do
LeastObs == /\ T.out.kind = "field"
            /\ \E i \in DOMAIN drill :
                   /\ <<start + i - 1, drill[i].idx>> = <<T.out.dom, T.out.idx>>
                   /\ \A j \in DOMAIN drill : drill[i].total <= drill[j].total
C04 == IF T.mode # "zd" \/ ~Mono THEN {}
       ELSE IF outcome = Refused THEN (IF RefusedObs THEN {} ELSE {"C04.refuse"})
       ELSE IF ~LeastObs THEN {"C04.least"}
       ELSE (IF SizedSet # ExpectedSized THEN {"C04.examined"} ELSE {})
            \cup (IF T.out.key # T.out.idx - 1 THEN {"C04.key"} ELSE {})
            \cup {"C04.ghe." \o x : x \in
                    LeftBehind(Fld(T.out.dom, T.out.idx).h * 1000,
                               <<T.minH, (T.minH + T.maxH) \div 2, T.maxH>>)}

EvalBad(e) ==
    IF ~Known(e.dom, e.idx) THEN {"unknown"}
    ELSE EvalErrors(T, Fld(e.dom, e.idx), e)
         \cup (IF e.g /\ e.gH # <<e.H>> THEN {"gheight"} ELSE {})

C05 == {"C05." \o x : x \in UNION {EvalBad(T.evals[i]) : i \in DOMAIN T.evals}}
       \cup (IF T.final # <<>> /\ Known(F.dom, F.idx)
             THEN {"C05.final." \o x : x \in
                     EvalErrors(T, Fld(F.dom, F.idx), F)} ELSE {})
       \cup (IF T.out.kind = "raised" /\ ~RefusedObs THEN {"C05.error"} ELSE {})
       \* the excess temperatures come from the requested simulation method
       \cup (IF \E i \in DOMAIN T.methods : T.methods[i] # T.method
             THEN {"C05.method"} ELSE {})
       \cup (IF T.evals = <<>> THEN {"C05.noevaluation"} ELSE {})

Judge == /\ pc = "end" /\ ~Judged
         /\ LET b == C01 \cup C02 \cup C03 \cup C04 \cup C05
            IN  /\ bad' = <<b>>
                /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
         /\ UNCHANGED <<t, svars>>

TNext == \/ SearchNext /\ UNCHANGED tvars
         \/ Judge
TSpec == TInit /\ [][TNext]_<<svars, tvars>>
=============================================================================
