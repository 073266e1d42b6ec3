---------------------------- MODULE PeaksTrace -----------------------------
(***************************************************************************)
(* Recorded peak durations against Loads and Peaks (C14): the days of each *)
(* month are walked, then the hours of the two-day profile are simulated   *)
(* for both directions.                                                    *)
(***************************************************************************)
EXTENDS Loads, Peaks, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, dir, bad    \* dir: direction simulated, 0 while walking days
T == Traces[t]
mine == <<t, dir, bad>>
TInit == /\ t \in DOMAIN Traces /\ dir = 0 /\ bad = {}
         /\ LInit(Traces[t].x, Traces[t].cal, 24)
         /\ KInit(<<>>, 0, 0, 1, Traces[t].G, Traces[t].R)
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Broken == T.out # "ok"
Refuse == /\ Broken /\ m = 1 /\ m' = Len(cal) + 2
          /\ bad' = {"C14.error"} /\ Verdict(bad')
          /\ UNCHANGED <<x, cal, hpd, day, tot, pk, pday, kvars, t, dir>>
Walk == ~Broken /\ dir = 0 /\ DayStep /\ UNCHANGED <<kvars, mine>>
Top(s) == FoldLeft(LAMBDA a, v : Larger(a, v), 0, s)
Start(k) ==
    /\ dir' = k
    /\ L' = IF pk[k] = 0 THEN <<>> ELSE TwoDay(k)
    /\ P' = IF pk[k] = 0 THEN 0 ELSE Larger(pk[k], Top(TwoDay(k)))
    /\ energy' = tot[k] /\ n' = day * hpd
    /\ h' = 0 /\ top' = BZero
    /\ UNCHANGED <<G, R>>
Begin == /\ ~Broken /\ dir = 0 /\ MonthDone /\ Start(1)
         /\ UNCHANGED <<lvars, t, bad>>
Simulate == dir > 0 /\ Hour /\ UNCHANGED <<lvars, mine>>
Judge == IF Matches(T.d[dir][m], 2) THEN {}
         ELSE IF Positive THEN {"C14.duration"} ELSE {"C14.negligible"}
Done == /\ dir > 0 /\ Simulated
        /\ bad' = bad \cup Judge
        /\ IF dir = 1 THEN Start(2) /\ UNCHANGED lvars
           ELSE /\ MonthStep /\ dir' = 0 /\ UNCHANGED kvars
                /\ m = Len(cal) => Verdict(bad')
        /\ UNCHANGED t
TNext == Refuse \/ Walk \/ Begin \/ Simulate \/ Done
TSpec == TInit /\ [][TNext]_<<lvars, kvars, mine>>
=============================================================================
