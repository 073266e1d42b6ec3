----------------------------- MODULE MC_Hybrid ------------------------------
(* Two kinds of months, two to four days of two hours, half-hour ticks.    *)
EXTENDS Hybrid
CONSTANTS Days, Years, MaxDur, Keeps
Hd == 2
Tp == 2
Month(d) == {r \in [pk : [{1, 2} -> {0, 5}], pday : [{1, 2} -> 0..d],
                    dur : [{1, 2} -> 0..MaxDur]] :
               \A k \in {1, 2} : (r.pk[k] = 0) = (r.pday[k] = 0) /\
                                 (r.pk[k] = 0 => r.dur[k] = 0)}
Init == \E a \in Month(Days), b \in Month(2), k \in Keeps, s \in 1..2, e \in 1..(2 * Years) :
           /\ s <= e
           /\ HInit(<<a, b>>, <<Days, 2>>, Hd, Tp, s, e, k)
Spec == Init /\ [][HNext]_hvars
Upto == i <= last + 1
\* nothing blocks before the last month is complete
Live == i <= last => ENABLED HNext
=============================================================================
