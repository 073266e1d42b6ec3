---------------------------- MODULE LoadsTrace -----------------------------
(* Recorded load analyses against Loads (C13).  Loads are integers in the  *)
(* unit of the trace; averages carry three more decimals.                  *)
EXTENDS Loads, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, bad
T == Traces[t]
TInit == /\ t \in DOMAIN Traces /\ bad = {}
         /\ LInit(Traces[t].x, Traces[t].cal, 24)
Broken == T.out # "ok"
Refuse == /\ Broken /\ m = 1 /\ day = 0
          /\ m' = Len(cal) + 2 /\ bad' = {"C13.error"}
          /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad'))
          /\ UNCHANGED <<x, cal, hpd, day, tot, pk, pday, t>>

Split(d) == \A h \in 1..hpd : LET i == DayStart(m, d) + h IN
               \A k \in Dirs : T.split[k][i] = Part(x[i], k)
Walk == /\ ~Broken /\ DayStep
        /\ bad' = IF Split(day + 1) THEN bad ELSE bad \cup {"C13.split"}
        /\ UNCHANGED t

Near1(a, b) == a - b \in -1..1
Figures(k) ==
    LET o == T.obs[k][m] IN
    (IF ~Near1(o.total, tot[k]) THEN {"C13.total"} ELSE {}) \cup
    (IF o.peak # pk[k] THEN {"C13.peak"} ELSE {}) \cup
    (IF o.day # pday[k] THEN {"C13.day"} ELSE {}) \cup
    \* |average - total / hours| <= 1 of the last decimal
    (IF ~BNear(BMul(o.average, BInt(day * hpd)), BMulI(BInt(tot[k]), 1000),
               BInt(day * hpd))
     THEN {"C13.average"} ELSE {}) \cup
    (IF pday[k] > 0 /\ o.two # TwoDay(k) THEN {"C13.twoday"} ELSE {}) \cup
    (IF o.table # <<o.total, o.average, o.peak, o.day>>
     THEN {"C13.table"} ELSE {})
Judge == /\ ~Broken /\ MonthDone /\ MonthStep
         /\ bad' = bad \cup Figures(1) \cup Figures(2)
         /\ m = Len(cal) =>
              PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad'))
         /\ UNCHANGED t
TNext == Refuse \/ Walk \/ Judge
TSpec == TInit /\ [][TNext]_<<lvars, t, bad>>
=============================================================================
