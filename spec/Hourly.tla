------------------------------- MODULE Hourly -------------------------------
(***************************************************************************)
(* Hours of the hourly simulation (C18).  The loads of a year are a        *)
(* sequence of breakpoints [h, q]: load q from the start of hour h on,     *)
(* hours of the year counted from 0, the first breakpoint at 0.  The       *)
(* months first..last are walked; ev holds the changes of load so far.     *)
(***************************************************************************)
EXTENDS Calendar, SequencesExt

VARIABLES prof, cal, hpd, first, last,
          mo,   \* month under way
          now,  \* load at the end of the months walked
          ev    \* changes [at, dq], at = hours from the start
hrvars == <<prof, cal, hpd, first, last, mo, now, ev>>

HrInit(p, c, d, s, e) == /\ prof = p /\ cal = c /\ hpd = d /\ first = s
                         /\ last = e /\ mo = s /\ now = 0 /\ ev = <<>>
StartOf(k) == hpd * (DaysBefore(cal, k) - DaysBefore(cal, first))
Hours == StartOf(last + 1)
\* the load in force in hour h of the year
InForce(h) == prof[FoldLeft(LAMBDA a, j : IF prof[j].h <= h THEN j ELSE a, 1,
                            [j \in 1..Len(prof) |-> j])].q
MonthWalk ==
    /\ mo <= last
    /\ LET h0 == hpd * DaysBefore(cal, OfYear(cal, mo))
           h1 == h0 + hpd * DaysIn(cal, mo)
           In(b) == b.h > h0 /\ b.h < h1
           pts == <<[h |-> h0, q |-> InForce(h0)]>> \o SelectSeq(prof, In)
           Add(acc, p) ==
               IF p.q = acc.now THEN acc
               ELSE [now |-> p.q,
                     ev |-> Append(acc.ev, [at |-> StartOf(mo) + p.h - h0,
                                            dq |-> p.q - acc.now])]
           r == FoldLeft(Add, [now |-> now, ev |-> ev], pts)
       IN  now' = r.now /\ ev' = r.ev
    /\ mo' = mo + 1
    /\ UNCHANGED <<prof, cal, hpd, first, last>>
Walked == mo > last
\* load in hour i = 1, 2, ... of the simulation, from the changes
Load(i) == FoldLeft(LAMBDA a, e : IF e.at < i THEN a + e.dq ELSE a, 0, ev)
=============================================================================
