---------------------------- MODULE RadialTrace -----------------------------
(* Recorded short time step responses against Radial (C30).  A trace has a *)
(* solution of the balances (w: the first ring after each step, and whole  *)
(* states at some steps), which is verified here, and the recorded curve.  *)
(* Temperatures and resistances have 15 decimals, logarithms 12, capacities,  *)
(* conductances and the curve 9, conductivities, heights and times 6; radii are pm. *)
EXTENDS Radial, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, at, bad
tvars == <<rvars, t, at, bad>>
X == Traces[t]
P == X.b                                 \* radii and properties
Pi8 == <<9265, 1415, 3>>                 \* 8 decimals
Root2 == <<1356, 4142, 1>>               \* 8 decimals
E86 == <<5793, 8410, 1>>                 \* exp(-8.6), 12 decimals
Product(s) == FoldLeft(BMul, <<1>>, s)

(* |a - b| <= one part in 10^6 of b and one unit *)
Rel(a, b, unit) == BLeq(BMul(<<0, 100>>, BAbs(BSub(a, b))),
                        BAdd(BAbs(b), BMul(<<0, 100>>, unit)))

(* ----------------------------------------------------------- the network *)
Core == BSub(BMul(FilmIn(P), FilmIn(P)),
             BMulI(BMul(CoreIn(P), CoreIn(P)), 16))
Area(r) == BSub(BMul(r.out, r.out), BMul(r.in, r.in))
Squared(x) == BMul(x, x)
TubeOk == BNear(BMul(P.tube, BPow10(8)), BMul(P.rout, Root2), BPow10(10))
RingsOk == Len(net.c) = 534 /\ Len(net.g) = 534 /\ Len(X.log) = 535
(* c * 120 s = rho c * pi (out^2 - in^2) *)
CapFactor == Product(<<BInt(120), BInt(729000000), BPow10(23)>>)
CapacityOk(i) ==
    LET a == Area(Ring(P, i))
        k == KindOf(i)
        rc == CASE k = "film" -> <<1>> [] k = "pipe" -> P.rcp
              [] k = "grout" -> P.rcg [] OTHER -> P.rcs
    IN  IF k = "fluid"
        THEN Rel(Product(<<net.c[i], CapFactor, Core>>),
                 Product(<<BMulI(Squared(P.rin), 32), P.rcf, Pi8, a>>),
                 BMul(CapFactor, Core))
        ELSE Rel(BMul(net.c[i], CapFactor), Product(<<rc, Pi8, a>>),
                 CapFactor)
(* ln(a / b) = 2 (z + z^3 / 3 + z^5 / 5), z = (a - b) / (a + b) *)
LogOk(l, a, b) ==
    LET d == BSub(a, b)
        s == BAdd(a, b)
        d2 == BMul(d, d)
        s2 == BMul(s, s)
        s5 == BMulI(Product(<<s2, s2, s>>), 15)
        sum == BSumSeq(<<BMulI(BMul(s2, s2), 15), BMulI(BMul(d2, s2), 5),
                         BMulI(BMul(d2, d2), 3)>>)
    IN  Rel(BMul(l, s5), BMul(BMulI(BMul(d, sum), 2), BPow10(12)), s5)
LogsOk(i) == LET r == Ring(P, i)
             IN  /\ LogOk(X.log[i].o, r.out, r.mid)
                 /\ i > 1 => LogOk(X.log[i].i, r.mid, r.in)
Across(i) == BAdd(X.log[i].o, X.log[i].i)
(* from inside the tube to the borehole wall *)
Wide == BAdd(Across(5), BSumSeq([j \in 1..27 |-> Across(j + 8)]))
HalfFilm == P.rf                          \* R_f / 2
(* Resistance r of the part of ring i with logarithm l *)
PartOk(r, l, i, wide) ==
    LET k == KindOf(i)
        Of(all, whole) == Rel(BMul(r, all), BMul(l, whole), all)
    IN  CASE k = "fluid" ->
               Rel(Product(<<r, BMulI(Squared(P.rin), 64), P.rho, Pi8>>),
                   Product(<<l, Core, BPow10(17)>>),
                   Product(<<BMulI(Squared(P.rin), 64), P.rho, Pi8>>))
        [] k = "film" -> Of(Across(4), P.rf)
        [] k = "pipe" -> Of(wide, P.rp)
        [] k = "grout" -> Of(wide, BSub(P.res, P.rf))
        [] OTHER -> Rel(Product(<<r, BMulI(P.ks, 2), Pi8>>),
                        BMul(l, BPow10(17)),
                        Product(<<BMulI(P.ks, 2), Pi8>>))
ResistancesOk(i, wide) ==
    /\ PartOk(X.res[i].o, X.log[i].o, i, wide)
    /\ i > 1 => PartOk(X.res[i].i, X.log[i].i, i, wide)
ConductanceOk(i) ==
    Rel(BMul(net.g[i], BAdd(X.res[i].o, X.res[i + 1].i)), BPow10(24),
        <<1>>)
NetworkOk == /\ TubeOk /\ RingsOk
             /\ LET wide == Wide IN \A i \in 1..535 :
                    LogsOk(i) /\ ResistancesOk(i, wide)
             /\ \A i \in 1..534 : CapacityOk(i) /\ ConductanceOk(i)

(* --------------------------------------------------------- the solution *)
Unit == BPow10(24)
BalanceOk(before, new) ==
    \A i \in Rings : BNear(Residual(i, before, new, Unit), BZero, BPow10(18))
TotalOk(k, new, left) ==
    BNear(BAdd(Total(new), left), BMulI(Unit, k), BMulI(BPow10(18), k))
OrderOk(before, new) ==
    /\ \A i \in Rings : BLeq(At(new, i + 1), BAdd(new[i], <<2>>))
    /\ \A i \in Rings : BLeq(before[i], BAdd(new[i], <<2>>))

(* ------------------------------------------------------------ the curve *)
Points == Len(X.g)
(* g = 2 pi k (T1 - R_b) *)
ValueOk(j) == BNear(BMul(X.g[j], BPow10(20)),
                    Product(<<BMulI(P.ks, 2), Pi8, BSub(X.w[j], P.res)>>),
                    BPow10(23))
TimeOk(j) == BNear(X.x[j], BMul(BInt(120 * (j - 1)), BPow10(6)),
                   BInt(20000))
(* ts = H^2 rho c / (9 k) *)
ScaleOk == Rel(Product(<<X.ts, P.ks, BInt(9)>>),
               Product(<<Squared(X.H), P.rcs>>), P.ks)
End == IF X.final = <<-1>>
       THEN BMax(BMul(BInt(49 * 3600), BPow10(18)), BMul(X.ts, E86))
       ELSE BMul(X.final, BPow10(12))
Latest == BMul(X.x[Points], BPow10(12))
Step120 == BMul(BInt(120), BPow10(18))
Slack == BMul(BInt(50), BPow10(15))
LengthOk == /\ BLeq(End, BAdd(BAdd(Latest, Step120), Slack))
            /\ Points > 1 => BLeq(BSub(Latest, BAdd(Step120, Slack)),
                                  BSub(End, Step120))
Judged ==
    IF Points = 0 \/ Points # Len(X.x) \/ Len(X.w) < Points
    THEN {"C30.points"}
    ELSE (IF LengthOk THEN {} ELSE {"C30.length"})
    \cup (IF ScaleOk /\ \A j \in 1..Points : TimeOk(j) THEN {}
          ELSE {"C30.times"})
    \cup (IF \A j \in 1..Points : ValueOk(j) THEN {} ELSE {"C30.value"})
    \cup (IF \A j \in 2..Points : BLt(X.g[j - 1], X.g[j]) THEN {}
          ELSE {"C30.rises"})
    \cup (IF \A j \in 1..Len(X.mid) :
               BNear(BMulI(X.mid[j].v, 2),
                     BAdd(X.g[X.mid[j].j], X.g[X.mid[j].j + 1]), <<100>>)
          THEN {} ELSE {"C30.curve"})
    \cup (IF X.same THEN {} ELSE {"C30.returned"})

TInit == /\ t \in DOMAIN Traces /\ at = 0 /\ bad = {}
         /\ net = Traces[t].net
         /\ n = 0 /\ T = <<>> /\ old = <<>> /\ gone = BZero /\ q = BPow10(24)
Verdict(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Refuse == /\ at = 0 /\ X.out # "ok" /\ at' = -1 /\ bad' = {"C30.error"}
          /\ Verdict(bad') /\ UNCHANGED <<rvars, t>>
Network == /\ at = 0 /\ X.out = "ok" /\ at' = 1
           /\ bad' = IF NetworkOk THEN {} ELSE {"C30.witness"}
           /\ UNCHANGED <<rvars, t>>
Sample == /\ at \in 1..Len(X.s) /\ at' = at + 1
          /\ n' = X.s[at].n /\ old' = X.s[at].old /\ T' = X.s[at].new
          /\ gone' = X.s[at].gone
          /\ bad' = bad \cup
               (IF /\ BalanceOk(old', T') /\ TotalOk(n', T', gone')
                   /\ OrderOk(old', T') /\ X.w[n'] = T'[1]
                THEN {} ELSE {"C30.witness"})
          /\ UNCHANGED <<net, q, t>>
Curve == /\ at > 0 /\ at = Len(X.s) + 1 /\ at' = -1
         /\ bad' = bad \cup Judged /\ Verdict(bad') /\ UNCHANGED <<rvars, t>>
TNext == Refuse \/ Network \/ Sample \/ Curve
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
