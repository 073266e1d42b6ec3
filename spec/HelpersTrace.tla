---------------------------- MODULE HelpersTrace ----------------------------
(* Recorded results of the helpers against Helpers (C32).                  *)
EXTENDS Helpers, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, bad, done
T == Traces[t]
mine == <<t, bad, done>>
TInit == /\ t \in DOMAIN Traces /\ bad = {} /\ done = FALSE
         /\ CInit(Year365)
         /\ PInit(IF Traces[t].kind = "area" THEN Traces[t].poly ELSE <<>>)
If(c, clause) == IF c THEN {} ELSE {clause}
Close(b) == /\ done' = TRUE /\ bad' = b
            /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Rest == UNCHANGED <<calvars, polyvars, t>>
Open(kind) == ~done /\ T.kind = kind /\ T.out = "ok"

\* a field without boreholes has no spacing
NoField == T.kind = "spacing" /\ T.pts = <<>>
Refuse == /\ ~done /\ T.out # "ok" /\ Rest
          /\ Close(If(NoField /\ T.out = "ValueError", "C32.error"))

(* Months *)
Here == If(T.obs[month] = <<first, last, DaysIn(cal, month)>>, "C32.month")
Go == /\ Open("months") /\ month < Len(T.obs)
      /\ bad' = bad \cup Here
      /\ NextMonth /\ UNCHANGED <<polyvars, t, done>>
English == <<"January", "February", "March", "April", "May", "June", "July",
             "August", "September", "October", "November", "December">>
\* the 27 points in time of Eskilson, in thousandths of ln(t/ts)
Eskilson == <<-8500, -7800, -7200, -6500, -5900, -5200, -4500, -3963, -3270,
              -2864, -2577, -2171, -1884, -1191, -497, -274, -51, 196, 419,
              642, 873, 1112, 1335, 1679, 2028, 2275, 3003>>
ASSUME \A k \in 1..26 : Eskilson[k] < Eskilson[k + 1]
Year == /\ Open("months") /\ month = Len(T.obs) /\ Rest
        /\ Close(bad \cup Here \cup If(T.names = English, "C32.name")
                 \cup If(T.times = [k \in DOMAIN Eskilson |-> 10 * Eskilson[k]],
                         "C32.times")
                 \cup If(T.index = [k \in 1..12 |-> k], "C32.index"))

(* Polygons, in quarters of a metre *)
Walk == Open("area") /\ NextCorner /\ UNCHANGED <<calvars, mine>>
Area == /\ Open("area") /\ Round /\ Rest
        /\ Close(If(BNear(BMulI(T.area, 32), BMulI(BInt(TwiceArea), 1000000),
                          <<64>>), "C32.area")
                 \cup If(T.kept, "C32.changes-polygon"))

Rows == /\ Open("row") /\ Rest
        /\ Close(If(\A k \in DOMAIN T.rows : LET r == T.rows[k] IN
                      /\ r[3] = Reaching(r[1], r[2])
                      /\ r[4] = Reaching(r[1], r[2])
                      /\ r[5] = Within(r[1], r[2]), "C32.count")
                 \cup If(\A k \in DOMAIN T.sides : LET s == T.sides[k] IN
                      /\ s[3] = 0 /\ s[4] = (s[1] - 1) * s[2]
                      /\ s[5] = 1000 * s[2], "C32.side"))
Domain0 == /\ Open("order") /\ Rest
           /\ Close(If(T.got = Ordered([k \in 1..Len(T.sizes) |->
                               <<T.sizes[k], k>>]), "C32.order")
                    \cup If(T.kept, "C32.changes-domain"))
Excess == /\ Open("excess") /\ Rest
          /\ Close(If(T.steps = [k \in DOMAIN Steps(T.v) |->
                                     1000 * Steps(T.v)[k]], "C32.steps")
                   \cup If(T.unimodal = Unimodal(T.v), "C32.unimodal"))
\* every actual value divides 200: the sum of the errors is whole in 200ths
Errors == FoldLeft(+, 0, [k \in 1..Len(T.a) |->
              (T.p[k] - T.a[k]) * ((200 \div Abs(T.a[k])) *
                                   (IF T.a[k] < 0 THEN -1 ELSE 1))])
Mpe == /\ Open("mpe") /\ Rest
       /\ Close(If(BNear(BMulI(T.mpe, 2 * Len(T.a)),
                         BMul(BInt(Errors), BPow10(9)), <<500>>), "C32.mpe"))
Rect == /\ Open("rect") /\ Rest
        /\ Close(If(T.got = [k \in 1..4 |-> [i \in 1..2 |-> 1000 *
                       Rectangle(T.o, T.lx, T.ly)[k][i]]], "C32.rectangle"))
Signs == /\ Open("sign") /\ Rest
         /\ Close(If(T.signs = [k \in 1..Len(T.v) |-> Sign(T.v[k][1])],
                     "C32.sign")
                  \cup If(\A k \in DOMAIN T.pairs : T.pairs[k][3] =
                          Bracket(T.pairs[k][1], T.pairs[k][2]), "C32.bracket"))
\* the square of the distance, and of the result, in 10^-18 square metres
Gap == LET a == T.pts[1] b == T.pts[2] IN
       (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Spacing ==
    /\ Open("spacing") /\ Rest
    /\ Close(IF NoField THEN {"C32.spacing"}
             ELSE IF Len(T.pts) = 1 \/ Gap <= T.rb * T.rb
             THEN If(BEq(T.got, BMulI(BInt(T.rb), 1000000)), "C32.spacing")
             ELSE If(/\ ~BNegative(T.got)
                     /\ BNear(BMul(T.got, T.got), BMul(BInt(Gap), BPow10(12)),
                              BAdd(BMulI(T.got, 2), <<2>>)), "C32.spacing"))
Files == /\ Open("json") /\ Rest
         /\ Close(If(T.same, "C32.json") \cup If(T.made, "C32.folder"))
TNext == Refuse \/ Go \/ Year \/ Walk \/ Area \/ Rows \/ Domain0 \/ Excess
         \/ Mpe \/ Rect \/ Signs \/ Spacing \/ Files
TSpec == TInit /\ [][TNext]_<<calvars, polyvars, mine>>
=============================================================================
