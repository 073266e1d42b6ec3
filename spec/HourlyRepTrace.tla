--------------------------- MODULE HourlyRepTrace ---------------------------
(* Recorded hourly years against HourlyRep (C27).  Figures either come     *)
(* from Loads, run on the recorded loads, or are those of the doubling     *)
(* profile.  Observed values have three decimals more than the loads.      *)
EXTENDS HourlyRep, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, bad, x, m, day, tot, pk, pday
A == INSTANCE Loads
T == Traces[t]
load == <<x, m, day, tot, pk, pday>>
TInit == /\ t \in DOMAIN Traces /\ bad = {}
         /\ A!LInit(Traces[t].x, Traces[t].cal, 24)
         /\ RInit(Traces[t].cal, 24, <<>>)
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Wrong == T.out # "ok"
Sizes == \A k \in {1, 2} : Len(T.obs[k]) = 24 * DaysPerYear(cal)
Refuse == /\ mo = 1 /\ m = 1 /\ day = 0
          /\ Wrong \/ ~Sizes
          /\ mo' = 0
          /\ bad' = IF Wrong THEN {"C27.error"} ELSE {"C27.length"}
          /\ Verdict(bad')
          /\ UNCHANGED <<cal, hpd, blocks, year, load, t>>
Walk == /\ mo > 0 /\ ~Wrong /\ Sizes /\ T.kind = "hybrid"
        /\ mo = m /\ A!DayStep
        /\ UNCHANGED <<blocks, mo, year, t, bad>>

\* what month mo should hold in direction k: total, peak, day, durations
Doubling(k) ==
    LET v == IF k = 2 THEN mo ELSE 13 - mo IN
    [tot |-> v * T.unit * cal[mo] * 24, pk |-> 2 * v * T.unit, D |-> {v},
     pday |-> IF k = 2 THEN 7 + mo ELSE 21 - mo]
Stated(k) == IF T.kind = "doubling" THEN Doubling(k)
             ELSE [tot |-> tot[k], pk |-> pk[k], pday |-> pday[k],
                   D |-> RoundedHours(T.dur[k][mo])]
Off == DaysBefore(cal, mo) * hpd
Obs(k, h) == T.obs[k][Off + h + 1]
Average(v, f, n) == BNear(BMulI(BInt(v), n), BMulI(BInt(f.tot), 1000), BInt(n))
IsMonth(k, f, D, st, n) ==
    \A h \in 0..(n - 1) : IF Kind(h, st, D) = "peak"
                          THEN Obs(k, h) - 1000 * f.pk \in -1..1
                          ELSE Average(Obs(k, h), f, n)
MonthOK(k) ==
    LET f == Stated(k) n == cal[mo] * hpd IN
    IF f.pk = 0 THEN \A h \in 0..(n - 1) : Obs(k, h) = 0
    ELSE \E D \in f.D : \E st \in Starts(f.pday, hpd, D, n) :
            IsMonth(k, f, D, st, n)
Judge == /\ mo > 0 /\ mo <= Len(cal) /\ ~Wrong /\ Sizes
         /\ IF T.kind = "hybrid" THEN A!MonthDone /\ A!MonthStep
            ELSE UNCHANGED load
         /\ bad' = bad \cup (IF MonthOK(1) THEN {} ELSE {"C27.rejection"})
                       \cup (IF MonthOK(2) THEN {} ELSE {"C27.extraction"})
         /\ mo' = mo + 1
         /\ mo = Len(cal) => Verdict(bad')
         /\ UNCHANGED <<cal, hpd, blocks, year, t>>
TNext == Refuse \/ Walk \/ Judge
TSpec == TInit /\ [][TNext]_<<rvars, load, t, bad>>
=============================================================================
