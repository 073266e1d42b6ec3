------------------------------- MODULE Peaks -------------------------------
(***************************************************************************)
(* Peak duration of a month (C14), one hour of the two-day window at a     *)
(* time, in exact integers.                                                *)
(*                                                                         *)
(*   W    hours in the window, L[1..W] loads of the window                 *)
(*   P    peak, 0 in a month without load, otherwise the largest of the month and the window                    *)
(*   energy, n  total load and hours of the month: average energy / n           *)
(*   G[1..W]  increasing response after 1..W hours, R the resistance, in   *)
(*            the same unit                                                *)
(* Nominal loads q_i = (L_i - energy/n) / P * L_i and the peak load           *)
(* P - energy/n are both scaled by n * P, so all responses are integers.      *)
(***************************************************************************)
EXTENDS Big, FiniteSets

VARIABLES L, P, energy, n, G, R,
          h,     \* hours simulated
          top    \* largest nominal response so far, at least 0
kvars == <<L, P, energy, n, G, R, h, top>>

KInit(l, p, s, c, g, r) == /\ L = l /\ P = p /\ energy = s /\ n = c
                           /\ G = g /\ R = r /\ h = 0 /\ top = BZero
W == Len(L)
Q(i) == BMulI(BSub(BMulI(BInt(L[i]), n), BInt(energy)), L[i])
Gain(a) == IF a = 1 THEN G[1] ELSE G[a] - G[a - 1]
\* load i has acted for j - i + 1 hours at the end of hour j
Scaled(b, f) == [k \in 1..Len(b) |-> b[k] * f]
Nominal(j) ==
    BNorm(FoldLeft(LAMBDA acc, i : BAddLazy(acc,
                        Scaled(Q(i), Gain(j - i + 1) + (IF i = j THEN R ELSE 0))),
                   BZero, [i \in 1..j |-> i]))
PeakLoad == BMulI(BSub(BMulI(BInt(P), n), BInt(energy)), P)
Constant(j) == IF j = 0 THEN BZero ELSE BMulI(PeakLoad, G[j] + R)

Hour == /\ P > 0 /\ h < W
        /\ h' = h + 1
        /\ top' = BMax(top, Nominal(h + 1))
        /\ UNCHANGED <<L, P, energy, n, G, R>>
Simulated == P = 0 \/ h = W
Positive == P > 0 /\ ~BIsZero(top)

\* response of the constant peak at d millionths of an hour, times 10^6
Million == 1000000
ConstantAt(d) ==
    LET a == d \div Million f == d % Million IN
    IF a >= W THEN BMulI(Constant(W), Million)
    ELSE BAdd(BMulI(Constant(a), Million - f), BMulI(Constant(a + 1), f))
Lo(d) == IF d < 0 THEN 0 ELSE d
\* d is the duration, within tol
Matches(d, tol) ==
    IF ~Positive THEN d \in 0..1000
    ELSE /\ d \in 0..(W * Million)
         /\ BLeq(ConstantAt(Lo(d - tol)), BMulI(top, Million))
         /\ d + tol >= W * Million \/ BLeq(BMulI(top, Million), ConstantAt(d + tol))

(* Guarantees *)
Bounded == Simulated /\ P > 0 => BLeq(top, Constant(W))
Increasing == Simulated /\ Positive => \A j \in 1..W :
                 BLt(Constant(j - 1), Constant(j))
=============================================================================
