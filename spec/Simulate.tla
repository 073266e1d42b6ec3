------------------------------ MODULE Simulate ------------------------------
(***************************************************************************)
(* Superposition of load steps (C17, C18).  Step j of heat dQ[j] more than *)
(* the one before it causes dQ[j] times the response at the time since it  *)
(* started.  Numbers are exact: temperatures are multiplied by             *)
(*    c = boreholes * height * 2 pi k                                      *)
(***************************************************************************)
EXTENDS Big

VARIABLES dQ,    \* change of load at the start of each step
          n,     \* steps simulated
          rise   \* temperature rise at the end of step n, times c
svars == <<dQ, n, rise>>

Changes(Q) == [j \in 1..Len(Q) |-> IF j = 1 THEN BNorm(Q[1])
                                   ELSE BSub(Q[j], Q[j - 1])]
SInit(Q) == dQ = Changes(Q) /\ n = 0 /\ rise = BZero
\* row[j]: response at the end of step i to a unit load since step j
Rise(i, row) == BNorm(FoldLeft(LAMBDA acc, j :
                        IF BIsZero(dQ[j]) THEN acc
                        ELSE BAddLazy(acc, BMul(dQ[j], row[j])),
                      BZero, [j \in 1..i |-> j]))
Gross(i, row) == BNorm(FoldLeft(LAMBDA acc, j :
                        BAddLazy(acc, BAbs(BMul(dQ[j], row[j]))),
                      BZero, [j \in 1..i |-> j]))
SimTo(i, row) == /\ i \in (n + 1)..Len(dQ)
                 /\ n' = i /\ rise' = Rise(i, row) /\ UNCHANGED dQ

(* Recorded temperatures.  F: c (9 decimals), T0 ground temperature (9),   *)
(* HN height times boreholes (6), H (6), Rb (9), mc twice the flow of heat *)
(* capacity (6); temperatures have 9 decimals, loads 6, responses 12.      *)
E(k) == BPow10(k)
\* b is c times the rise with 18 decimals, mag the sum of its terms' sizes
RiseOK(F, b, s, mag) ==
    BLeq(BMul(E(9), BAbs(BSub(BMul(b, F.c), s))),
         BAdd(BMul(E(9), BMulI(F.c, 1000)), mag))
\* exiting temperature: the ground, the rise b, resistance and half the
\* difference of the fluid, for load q
ExitOK(F, tf, b, q) ==
    LET lhs == BMul(BMul(BSub(BSub(tf, F.T0), b), F.HN), F.mc)
        RbM == BMul(F.Rb, F.mc)
        rhs == BMul(q, BSub(RbM, BMul(F.H, E(9))))
        mag == BMul(BAbs(q), BAdd(RbM, BMul(F.H, E(9))))
    IN  BLeq(BMul(E(9), BAbs(BSub(lhs, rhs))),
             BAdd(BMul(E(9), BMulI(BMul(F.HN, F.mc), 1000)), BMulI(mag, 4)))
\* extremes of a sequence and the excess over limits <<max, min>>
Highest(s) == FoldLeft(LAMBDA a, v : BMax(a, v), s[1], s)
Lowest(s) == FoldLeft(LAMBDA a, v : BMin(a, v), s[1], s)
Excess(hi, lo, lim) == BMax(BSub(hi, lim[1]), BSub(lim[2], lo))
=============================================================================
