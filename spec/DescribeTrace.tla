--------------------------- MODULE DescribeTrace ----------------------------
(* Recorded descriptions and placed pipes against Describe (C33).          *)
(* Numbers are limbs with 12 decimals.                                     *)
EXTENDS Describe, Big, FiniteSets, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, k, bad
T == Traces[t]
mine == <<t, k, bad>>
TInit == /\ t \in DOMAIN Traces /\ k = 1 /\ bad = {}
         /\ DInit(Traces[t].kind, Traces[t].par)
If(c, clause) == IF c THEN {} ELSE {clause}
Half == <<1, 5000>>         \* half a unit of the fourth decimal
Near(a, b, tol) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN a : BNear(a[i], b[i], tol)
O == T.obs[k]
More == T.kind # "place" /\ k \in DOMAIN T.obs
Set == /\ More /\ O.op = "set"
       /\ Change([f \in DOMAIN par |-> IF f \in DOMAIN O.par THEN O.par[f] ELSE par[f]])
       /\ bad' = bad \cup If(O.out = "ok", "C33.error")
       /\ k' = k + 1 /\ UNCHANGED t
Shown(d, l) == /\ d.label = l.label /\ d.unit = l.unit
               /\ Near(d.shown, l.shown, IF d.rounded THEN Half ELSE <<1>>)
Tell == /\ More /\ O.op = "tell" /\ Describe
        /\ bad' = bad \cup
             IF O.out # "ok" THEN {"C33.error"} ELSE
             If(Len(O.lines) = Len(doc'), "C33.lines") \cup
             {"C33." \o Template(kind)[i][3] :
                i \in {j \in DOMAIN doc' : j <= Len(O.lines) /\ ~Shown(doc'[j], O.lines[j])}}
        /\ k' = k + 1 /\ UNCHANGED t

(* Placed pipes: pos <<x, y>>, distance d of the centres, 12 decimals *)
Dot(a, b) == BAdd(BMul(a[1], b[1]), BMul(a[2], b[2]))
Turn(a, b) == BSub(BMul(a[1], b[2]), BMul(a[2], b[1]))
Nx(i) == IF i = Len(T.pos) THEN 1 ELSE i + 1
Tiny == BPow10(15)          \* 1e-9 square metres
Place == /\ T.kind = "place" /\ k = 1 /\ k' = 2
         /\ bad' = IF T.out # "ok" THEN {"C33.error"} ELSE
              If(Len(T.pos) = 2 * T.n, "C33.places") \cup
              If(/\ BNear(T.pos[1][1], BNeg(T.d), <<10>>)
                 /\ BNear(T.pos[1][2], BZero, <<10>>), "C33.first") \cup
              If(\A i \in DOMAIN T.pos :
                    BNear(Dot(T.pos[i], T.pos[i]), BMul(T.d, T.d), Tiny), "C33.circle") \cup
              If(\A i \in DOMAIN T.pos :
                    /\ BNear(BMulI(Dot(T.pos[i], T.pos[Nx(i)]), 2),
                             BMulI(BMul(T.d, T.d), TwiceCos(T.n)), Tiny)
                    /\ T.n > 1 => BLt(BZero, Turn(T.pos[i], T.pos[Nx(i)])), "C33.angle")
         /\ UNCHANGED <<dvars, t>>
End == /\ \/ T.kind # "place" /\ k = Len(T.obs) + 1
          \/ T.kind = "place" /\ k = 2
       /\ k' = -1 /\ UNCHANGED <<dvars, t, bad>>
       /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad))
TNext == Set \/ Tell \/ Place \/ End
TSpec == TInit /\ [][TNext]_<<dvars, mine>>
=============================================================================
