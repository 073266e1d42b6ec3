----------------------------- MODULE MC_Hourly ------------------------------
(* Years of two short months, every load of every hour, several years.     *)
EXTENDS Hourly
CONSTANTS MaxLoad, MaxMonth
VARIABLE x
Cal == <<2, 1>>
Hd == 2
N == Hd * 3
Points(y) == SelectSeq([h \in 1..N |-> [h |-> h - 1, q |-> y[h]]],
                       LAMBDA p : p.h = 0 \/ y[p.h + 1] # y[p.h])
Init == \E y \in [1..N -> 0..MaxLoad], s \in 1..MaxMonth, e \in 1..MaxMonth :
            s <= e /\ x = y /\ HrInit(Points(y), Cal, Hd, s, e)
Next == MonthWalk /\ UNCHANGED x
Spec == Init /\ [][Next]_<<hrvars, x>>
\* the changes make the loads of the simulated months, repeated every year
Repeats == Walked => \A i \in 1..Hours :
    Load(i) = x[((hpd * DaysBefore(cal, first) + i - 1) % N) + 1]
Inside == \A j \in 1..Len(ev) : ev[j].at \in 0..(Hours - 1) /\
              (j > 1 => ev[j - 1].at < ev[j].at) /\ ev[j].dq # 0
=============================================================================
