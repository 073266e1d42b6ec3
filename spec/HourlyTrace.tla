---------------------------- MODULE HourlyTrace -----------------------------
(* Recorded hourly simulations against Hourly and Simulate (C18).          *)
EXTENDS Hourly, Simulate, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, k, bad
T == Traces[t]
mine == <<t, k, bad>>
TInit == /\ t \in DOMAIN Traces /\ k = 0 /\ bad = {}
         /\ HrInit(Traces[t].prof, Year365, 24, Traces[t].first, Traces[t].last)
         /\ SInit(<<>>)
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Walk == MonthWalk /\ UNCHANGED <<svars, mine>>
\* loads are extraction positive: heat rejected is their negative; they are
\* given in units of 10^-dec watts, the rates in microwatts
Rate(q) == BMul(BInt(-q), E(6 - T.dec))
Begin ==
    /\ Walked /\ k = 0
    /\ dQ' = [j \in 1..Len(ev) |-> Rate(ev[j].dq)]
    /\ bad' = IF T.out # "ok" THEN {"C18.error"}
              ELSE (IF T.nt = Hours /\ T.nb = Hours THEN {} ELSE {"C18.hours"})
    /\ k' = IF bad' = {} THEN 1 ELSE Len(T.hours) + 2
    /\ k' > Len(T.hours) => Verdict(bad')
    /\ UNCHANGED <<hrvars, n, rise, t>>
\* response since every change before hour i
Since(i) == FoldLeft(LAMBDA a, j : IF ev[j].at < i THEN j ELSE a, 0,
                     [j \in 1..Len(ev) |-> j])
Row(i) == [j \in 1..Since(i) |-> T.g[ToString(i - ev[j].at)]]
Judge ==
    /\ k \in 1..Len(T.hours)
    /\ LET o == T.hours[k] r == Row(o.i) c == Len(r) IN
       /\ rise' = Rise(c, r) /\ n' = o.i
       /\ bad' = bad
            \cup (IF RiseOK(T.F, o.b, rise', Gross(c, r)) THEN {} ELSE {"C18.rise"})
            \cup (IF ExitOK(T.F, o.tf, o.b, Rate(Load(o.i))) THEN {}
                  ELSE {"C18.exit"})
            \cup (IF BLeq(o.tf, T.ext[1]) /\ BLeq(T.ext[2], o.tf) THEN {}
                  ELSE {"C18.extremes"})
    /\ k' = k + 1
    /\ k' > Len(T.hours) => Verdict(bad')
    /\ UNCHANGED <<hrvars, dQ, t>>
TNext == Walk \/ Begin \/ Judge
TSpec == TInit /\ [][TNext]_<<hrvars, svars, mine>>
=============================================================================
