--------------------------- MODULE SimulateTrace ----------------------------
(***************************************************************************)
(* Recorded hybrid simulations against Simulate (C17): the steps for which *)
(* the responses were recorded are simulated in order.                     *)
(***************************************************************************)
EXTENDS Simulate, Calendar, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, k, bad         \* k: next recorded step
T == Traces[t]
mine == <<t, k, bad>>
TInit == /\ t \in DOMAIN Traces /\ k = 0 /\ bad = {}
         /\ SInit(Traces[t].Q)
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Steps == Len(T.Q)
\* energy of all steps is that of the simulated months (loads: extraction
\* positive, in W); loads have 6 decimals and hours 6
Energy == BSumSeq([j \in 1..Steps |-> BMul(T.Q[j],
               BSub(T.at[j], IF j = 1 THEN BZero ELSE T.at[j - 1]))])
GrossLoad == BSumSeq([j \in 1..Steps |-> BAbs(T.Q[j])])
Months == [j \in T.first..T.last |-> T.month[OfYear(Year365, j)]]
Stated == BSumSeq([j \in 1..(T.last - T.first + 1) |-> Months[T.first + j - 1]])
AllMonths == BLeq(BAbs(BAdd(Energy, BMul(Stated, E(12)))),
                  BAdd(BMulI(GrossLoad, 4000), E(12)))
Head0 == IF T.out # "ok" THEN {"C17.error"}
         ELSE (IF Len(T.tf) = Steps THEN {} ELSE {"C17.steps"})
    \cup (IF AllMonths THEN {} ELSE {"C17.load"})
    \cup (IF /\ BEq(T.ext[1], Highest(T.tf)) /\ BEq(T.ext[2], Lowest(T.tf))
          THEN {} ELSE {"C17.extremes"})
    \cup (IF BNear(T.excess, Excess(T.ext[1], T.ext[2], T.lim), <<4>>)
          THEN {} ELSE {"C17.excess"})
Begin == /\ k = 0 /\ bad' = Head0
         /\ k' = IF T.out = "ok" /\ Len(T.tf) = Steps THEN 1 ELSE Len(T.rows) + 2
         /\ k' > Len(T.rows) => Verdict(bad')
         /\ UNCHANGED <<svars, t>>
Judge == /\ k \in 1..Len(T.rows)
         /\ SimTo(T.rows[k].i, T.rows[k].g)
         /\ LET r == T.rows[k] b == T.b[r.i] IN
            bad' = bad
              \cup (IF RiseOK(T.F, b, rise', Gross(r.i, r.g)) THEN {}
                    ELSE {"C17.rise"})
              \cup (IF ExitOK(T.F, T.tf[r.i], b, T.Q[r.i]) THEN {}
                    ELSE {"C17.exit"})
         /\ k' = k + 1
         /\ k' > Len(T.rows) => Verdict(bad')
         /\ UNCHANGED t
TNext == Begin \/ Judge
TSpec == TInit /\ [][TNext]_<<svars, mine>>
=============================================================================
