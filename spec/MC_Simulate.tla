---------------------------- MODULE MC_Simulate -----------------------------
(* Every sequence of few loads and durations, and several responses.       *)
EXTENDS Simulate, TLC
CONSTANTS MaxSteps, MaxLoad, MaxHours
VARIABLES q, at, g
Tables == {<<1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<5, 8, 10, 11, 12, 12, 12, 12, 12>>,
           <<1, 4, 9, 16, 25, 36, 49, 64, 81>>}
Before(j) == IF j = 1 THEN 0 ELSE at[j - 1]
G(h) == IF h = 0 THEN 0 ELSE g[h]
Row(i) == [j \in 1..i |-> BInt(G(at[i] - Before(j)))]
Lens == 1..MaxSteps
Init == \E k \in Lens, tb \in Tables :
        \E s \in [1..k -> -MaxLoad..MaxLoad], d \in [1..k -> 1..MaxHours] :
            /\ q = s /\ g = tb
            /\ at = [j \in 1..k |-> FoldLeft(LAMBDA a, x : a + d[x], 0,
                                             [x \in 1..j |-> x])]
            /\ SInit([j \in 1..k |-> BInt(s[j])])
Next == \E i \in 1..Len(q) : i = n + 1 /\ SimTo(i, Row(i)) /\ UNCHANGED <<q, at, g>>
Spec == Init /\ [][Next]_<<svars, q, at, g>>
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
\* each load acts from its start until its end
Pulses == n > 0 => BToInt(rise) =
    Sum([j \in 1..n |-> q[j] * (G(at[n] - Before(j)) - G(at[n] - at[j]))])
\* the same loads hour by hour
LoadAt(h) == q[CHOOSE j \in 1..Len(q) : Before(j) < h /\ h <= at[j]]
ByHour == n > 0 => BToInt(rise) =
    Sum([h \in 1..at[n] |-> (LoadAt(h) - (IF h = 1 THEN 0 ELSE LoadAt(h - 1)))
                            * G(at[n] - h + 1)])
\* a constant load makes the response itself
Constant == n > 0 /\ (\A j \in 1..n : q[j] = q[1]) =>
    BToInt(rise) = q[1] * G(at[n])
=============================================================================
