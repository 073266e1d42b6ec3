---------------------------- MODULE HybridTrace ----------------------------
(***************************************************************************)
(* Recorded hybrid load sequences against Hybrid (C15, C16).  The figures  *)
(* of the months come from Loads, run over the recorded hourly loads; the  *)
(* peak durations are those of the code.  Times are pairs <<hour, 10^-9    *)
(* hours>>, ticks are millionths of an hour, loads have three decimals     *)
(* more than the hourly loads.                                             *)
(***************************************************************************)
EXTENDS Hybrid, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, s, bad, lost,   \* s: segment of the code looked at
          energy, rate,      \* of the month so far; <<>> or the common rate
          x, m, day, tot, pk, pday
A == INSTANCE Loads
T == Traces[t]
mine == <<t, s, bad, lost, energy, rate>>
load == <<x, m, day, tot, pk, pday>>
Empty == [tot |-> <<0, 0>>, pk |-> <<0, 0>>, pday |-> <<0, 0>>, dur |-> <<0, 0>>]
TInit == /\ t \in DOMAIN Traces /\ s = 0 /\ bad = {} /\ lost = FALSE
         /\ energy = BZero /\ rate = <<>>
         /\ A!LInit(Traces[t].x, Traces[t].cal, 24)
         /\ HInit([k \in DOMAIN Traces[t].cal |-> Empty], Traces[t].cal, 24,
                  1000000, Traces[t].first, Traces[t].last, 12)
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Broken == T.out # "ok"
Refuse == /\ Broken /\ s = 0 /\ s' = -1
          /\ bad' = {"C15.error", "C16.error"} /\ Verdict(bad')
          /\ UNCHANGED <<hvars, load, t, lost, energy, rate>>

(* The figures of the months *)
Figures == /\ ~Broken /\ s = 0 /\ m <= Len(cal)
           /\ \/ A!DayStep /\ UNCHANGED M
              \/ /\ A!MonthDone /\ A!MonthStep
                 /\ M' = [M EXCEPT ![m] = [tot |-> tot, pk |-> pk,
                            pday |-> pday, dur |-> <<T.dur[1][m], T.dur[2][m]>>]]
           /\ UNCHANGED <<tph, first, last, keep, i, at, todo, rest, seg, mine>>

Hours == T.hours
Zero == <<0, 0>>
N == Len(Hours)
Header ==
    /\ ~Broken /\ s = 0 /\ m > Len(cal)
    /\ s' = 3
    /\ todo' = Order(first)
    /\ bad' = IF N < 2 \/ Len(T.load) # N \/ Len(T.sf) # N THEN {"C16.lists"}
              ELSE (IF Hours[1] # Zero \/ T.load[1] # 0 \/ T.load[2] # 0 \/
                       Hours[2] # <<24 * DaysBefore(cal, first), 0>>
                    THEN {"C16.start"} ELSE {}) \cup
                   (IF \E k \in 3..N : ~T.up[k] THEN {"C16.increase"} ELSE {})
                   \cup
                   (IF T.sf[1] # 0 \/ \E k \in 2..N :
                          T.sf[k] - (T.load[k] - T.load[k - 1]) \notin -2..2
                    THEN {"C16.steps"} ELSE {})
    /\ bad' = {"C16.lists"} => Verdict(bad')
    /\ UNCHANGED <<M, cal, hpd, tph, first, last, keep, i, at, rest, seg, load,
                   t, lost, energy, rate>>

Eps == 3
Long == 1000000000
\* end of segment s, in ticks of the month
EndOf == LET h == Hours[s][1] - 24 * DaysBefore(cal, i) IN
         IF h > 1000 THEN Long ELSE IF h < 0 THEN -1
         ELSE h * tph + Hours[s][2] \div 1000
Abs(v) == IF v < 0 THEN -v ELSE v
Running == ~Broken /\ s >= 3 /\ "C16.lists" \notin bad /\ i <= last
Over == s > N
MonthOver == at >= MonthEnd(i) - Eps /\ todo = <<>>
\* segments of no duration (round-off) at the end of a month
Crumb == ~Over /\ EndOf \in (MonthEnd(i) - Eps)..(MonthEnd(i) + Eps)

Lo1 == StartAt(Middle, at)
Hi1 == StartAt(Middle + tph, at)
Near(v, a, b) == v >= a - Eps /\ v <= b + Eps
Value(dir) == 1000 * (IF dir = 1 THEN M[Mi(i)].pk[1] ELSE -M[Mi(i)].pk[2])
IsPeak == /\ todo # <<>> /\ Near(at, Lo1, Hi1)
          /\ Abs(T.load[s] - Value(Head(todo))) <= 1
          /\ Abs(EndOf - at - Dur(i, Head(todo))) <= Eps
CommonRate == rate = <<>> \/ Abs(T.load[s] - rate[1]) <= 1
IsRest == IF todo # <<>> THEN Near(EndOf, Lo1, Hi1) /\ EndOf > at - Eps
          ELSE Near(EndOf, MonthEnd(i), MonthEnd(i))

To == Lesser(EndOf, MonthEnd(i))
AddEnergy == IF To > at
             THEN BAdd(energy, BMul(BInt(T.load[s]), BInt(To - at)))
             ELSE energy
Consumes == EndOf <= MonthEnd(i) + Eps
Segment ==
    /\ Running /\ ~Over /\ ~(at >= MonthEnd(i) - Eps /\ (todo = <<>> \/ lost) /\ ~Crumb)
    /\ energy' = AddEnergy
    /\ at' = Greater(To, at)
    /\ s' = IF Consumes THEN s + 1 ELSE s
    /\ IF lost THEN UNCHANGED <<todo, lost, rate, bad>>
       ELSE IF IsPeak
       THEN todo' = Tail(todo) /\ UNCHANGED <<lost, rate, bad>>
       ELSE IF IsRest /\ (CommonRate \/ To <= at + Eps)
       THEN /\ UNCHANGED <<todo, lost, bad>>
            /\ rate' = IF To > at + Eps /\ rate = <<>> THEN <<T.load[s]>> ELSE rate
       ELSE /\ lost' = TRUE /\ UNCHANGED <<todo, rate>>
            /\ bad' = bad \cup
                 (IF EndOf > MonthEnd(i) + Eps THEN {"C16.monthend"}
                  ELSE IF IsRest THEN {"C16.rate"}
                  ELSE IF todo # <<>> THEN {"C16.peak"} ELSE {"C16.rest"})
    /\ UNCHANGED <<M, cal, hpd, tph, first, last, keep, i, rest, seg, load, t>>

Net == LET f == M[Mi(i)] IN BMul(BInt(f.tot[1] - f.tot[2]), BPow10(9))
Tolerance == LET f == M[Mi(i)] IN
    BAdd(BInt(MonthEnd(i)),
         BMulI(BMulI(BInt(Greater(f.pk[1], f.pk[2])), 1000), 20))
EndMonth ==
    /\ Running
    /\ Over \/ (at >= MonthEnd(i) - Eps /\ (todo = <<>> \/ lost) /\ ~Crumb)
    /\ LET b == bad \cup
              (IF Over /\ at < MonthEnd(i) - Eps
               THEN {"C15.missing", "C16.missing"} ELSE {}) \cup
              (IF ~BNear(energy, Net, Tolerance) THEN {"C15.energy"} ELSE {})
              \cup (IF i = last /\ ~Over THEN {"C16.extra"} ELSE {})
       IN bad' = b /\ (i = last => Verdict(b))
    /\ i' = i + 1 /\ at' = 0 /\ energy' = BZero /\ rate' = <<>>
    /\ lost' = FALSE
    /\ todo' = IF i < last THEN Order(i + 1) ELSE <<>>
    /\ UNCHANGED <<M, cal, hpd, tph, first, last, keep, rest, seg, load, t, s>>

TNext == Refuse \/ Figures \/ Header \/ Segment \/ EndMonth
TSpec == TInit /\ [][TNext]_<<hvars, load, mine>>
=============================================================================
