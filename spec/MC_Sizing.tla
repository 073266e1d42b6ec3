----------------------------- MODULE MC_Sizing ------------------------------
(* Every excess that falls with height over few heights.                   *)
EXTENDS Sizing
CONSTANTS Top, MaxE, Tol
VARIABLE prof
Falling == {f \in [1..Top -> -MaxE..MaxE] : \A h \in 1..(Top - 1) : f[h] > f[h + 1]}
Ex(h) == prof[h]
Init == prof \in Falling /\ ZInit(1, Top)
Next == /\ (Limits(Ex) \/ Try(Ex, Tol) \/ Stop(Tol) \/ Leave)
        /\ UNCHANGED prof
Spec == Init /\ [][Next]_<<zvars, prof>> /\ WF_<<zvars, prof>>(Next)
Correct == Finished => Good(Ex, 1, Top, Tol, res)
Bracket == at # 0 /\ res = 0 => Ex(lo) >= 0 /\ Ex(hi) <= 0
Ends == <>Finished
=============================================================================
