----------------------------- MODULE MC_Radial ------------------------------
(* Every small chain, exactly: temperatures are integers over det^n, by    *)
(* the continuants of the tridiagonal matrix of the balances.              *)
EXTENDS Radial
CONSTANTS Caps, Conds, Size, Steps
VARIABLE den

K == Len(net.c)
GI(i) == IF i = 0 THEN BZero ELSE net.g[i]
Diag(i) == BAdd(net.c[i], BAdd(GI(i - 1), GI(i)))
Sq(i) == BMul(net.g[i], net.g[i])
(* Leading and trailing minors *)
RECURSIVE Lead(_)
Lead(i) == IF i = 0 THEN <<1>> ELSE IF i = 1 THEN Diag(1)
           ELSE BSub(BMul(Diag(i), Lead(i - 1)),
                     BMul(Sq(i - 1), Lead(i - 2)))
RECURSIVE Trail(_)
Trail(i) == IF i = K + 1 THEN <<1>> ELSE IF i = K THEN Diag(K)
            ELSE BSub(BMul(Diag(i), Trail(i + 1)),
                      BMul(Sq(i), Trail(i + 2)))
RECURSIVE Chain(_, _)
Chain(a, b) == IF a >= b THEN <<1>> ELSE BMul(net.g[a], Chain(a + 1, b))
Inv(i, j) == LET a == IF i < j THEN i ELSE j
                 b == IF i < j THEN j ELSE i
             IN  BMul(Chain(a, b), BMul(Lead(a - 1), Trail(b + 1)))
Det == Lead(K)
Rhs(j) == BAdd(BMul(net.c[j], T[j]), IF j = 1 THEN den ELSE BZero)
Solved == [i \in 1..K |->
              BSumSeq([j \in 1..K |-> BMul(Inv(i, j), Rhs(j))])]

Init == /\ \E k \in Size, c \in [1..4 -> Caps], g \in [1..4 -> Conds] :
              net = [c |-> [i \in 1..k |-> BInt(c[i])],
                     g |-> [i \in 1..k |-> BInt(g[i])]]
        /\ n = 0 /\ T = [i \in 1..K |-> BZero] /\ old = T
        /\ gone = BZero /\ q = <<1>> /\ den = <<1>>
Step == /\ n < Steps /\ n' = n + 1
        /\ T' = Solved /\ den' = BMul(den, Det) /\ q' = den'
        /\ old' = [i \in 1..K |-> BMul(T[i], Det)]
        /\ gone' = BAdd(BMul(gone, Det), BMul(net.g[K], T'[K]))
        /\ UNCHANGED net
Next == Step
Spec == Init /\ [][Next]_<<rvars, den>>
=============================================================================
