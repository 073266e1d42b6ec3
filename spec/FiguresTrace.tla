---------------------------- MODULE FiguresTrace ----------------------------
(***************************************************************************)
(* What figures drawn by the code show, against Figures; the responses of  *)
(* a month against Loads and Peaks (C31).                                  *)
(***************************************************************************)
EXTENDS Loads, Peaks, Figures, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, dir, bad, done
T == Traces[t]
mine == <<t, dir, bad, done>>
Year(r) == r.kind = "month" /\ r.out = "ok"
TInit == /\ t \in DOMAIN Traces /\ dir = 0 /\ bad = {} /\ done = FALSE
         /\ IF Year(Traces[t])
            THEN /\ LInit(Traces[t].x, Traces[t].cal, 24)
                 /\ KInit(<<>>, 0, 0, 1, Traces[t].G, Traces[t].R)
            ELSE LInit(<<>>, <<>>, 24) /\ KInit(<<>>, 0, 0, 1, <<>>, 0)
         /\ FInit(IF Traces[t].kind = "hours" /\ Traces[t].out = "ok"
                  THEN Traces[t].x ELSE <<>>)
If(c, clause) == IF c THEN {} ELSE {clause}
Close(b) == /\ done' = TRUE /\ bad' = b
            /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Rest == UNCHANGED <<lvars, kvars, fvars, t, dir>>
Kept == If(T.kept, "C31.changes-data")

Refuse == ~done /\ T.out # "ok" /\ Close({"C31.error"}) /\ Rest

(* Maps *)
Outlines == SelectSeq(<<Closed(T.outline), Closed(T.hole)>>,
                      LAMBDA p : p # <<>>)
Map == /\ ~done /\ T.out = "ok" /\ T.kind = "area"
       /\ Close(If(SameMarks(T.marks, T.field), "C31.boreholes")
                \cup If(SameMarks(T.lines, Outlines), "C31.outline") \cup Kept)
       /\ Rest

(* Candidates of a domain, a file each *)
Files == /\ ~done /\ T.out = "ok" /\ T.kind = "domain"
         /\ Close(If(T.there = Len(T.fields) /\ Len(T.files) = T.there,
                     "C31.files")
                  \cup If(Len(T.files) = Len(T.fields) =>
                          \A k \in DOMAIN T.fields :
                              SameMarks(T.files[k], T.fields[k]),
                          "C31.candidate")
                  \cup If(T.left = 0, "C31.left-open") \cup Kept)
         /\ Rest

(* Curves *)
Curves == /\ ~done /\ T.out = "ok" /\ T.kind = "curves"
          /\ LET Lines == [k \in 1..Len(T.H) |-> <<T.H[k], T.lt, T.y[k]>>]
             IN  Close(If(SameMarks(T.lines, Lines), "C31.curve")
                  \cup If(ToSet(T.legend) = ToSet(T.H), "C31.legend")
                  \cup If(/\ Len(T.ratios) = Len(T.H)
                          /\ \A k \in DOMAIN T.H : \E j \in DOMAIN T.ratios :
                               \* the spacing is in tenths
                               Written(T.ratios[j], T.B, 10 * T.H[k]),
                          "C31.ratio") \cup Kept)
          /\ Rest

(* Hours of the year, four weeks at a time *)
Draw == /\ ~done /\ T.out = "ok" /\ T.kind = "hours" /\ ~Drawn
        /\ DrawHour(672) /\ UNCHANGED <<lvars, kvars, mine>>
Hourly == /\ ~done /\ T.out = "ok" /\ T.kind = "hours" /\ Drawn
          /\ Close(If(T.rej = rej, "C31.rejection")
                   \cup If(T.ext = ext, "C31.extraction") \cup Kept)
          /\ Rest

(* Responses of a month *)
F == T.figs[m]
Million6 == 1000000
InMonth == ~done /\ Year(T) /\ m <= Len(cal)
Walk == InMonth /\ dir = 0 /\ DayStep /\ UNCHANGED <<kvars, fvars, mine>>
TopOf(s) == FoldLeft(LAMBDA a, v : Larger(a, v), 0, s)
Start(k) ==
    /\ dir' = k
    /\ L' = IF pk[k] = 0 THEN <<>> ELSE TwoDay(k)
    /\ P' = IF pk[k] = 0 THEN 0 ELSE Larger(pk[k], TopOf(TwoDay(k)))
    /\ energy' = tot[k] /\ n' = day * hpd
    /\ h' = 0 /\ top' = BZero
    /\ UNCHANGED <<G, R>>
Begin == /\ InMonth /\ dir = 0 /\ MonthDone /\ Start(1)
         /\ UNCHANGED <<lvars, fvars, t, bad, done>>
\* an observed response v and one of Peaks, which has n * P times the unit
Tol == BAdd(BAbs(PeakLoad), BAdd(BAbs(Constant(W)), BMulI(BInt(n), P)))
Is(v, resp) == BNear(BMulI(BMulI(v, n), P), BMulI(resp, Million6), Tol)
Names(k) == IF k = 1 THEN <<"Peak Rejection", "Rejection">>
            ELSE <<"Extraction", "Peak Extraction">>
Wanted == UNION {IF F.want[k] THEN ToSet(Names(k)) ELSE {} : k \in 1..2}
Simulate ==
    /\ InMonth /\ dir > 0 /\ F.want[dir] /\ Hour
    /\ bad' = bad \cup
         (IF Len(F.line[dir][1]) # W + 1 \/ Len(F.line[dir][2]) # W + 1
          THEN {"C31.length"}
          ELSE If(Is(F.line[dir][2][h + 2], Nominal(h + 1)), "C31.response")
               \cup If(Is(F.line[dir][1][h + 2], Constant(h + 1)),
                       "C31.peak-response"))
    /\ UNCHANGED <<lvars, fvars, t, dir, done>>
Zero(s) == \A k \in DOMAIN s : BIsZero(s[k])
Start0(k) == \A j \in 1..2 : F.line[k][j] # <<>> /\ BIsZero(F.line[k][j][1])
\* a mark, and a bar from it to the hour of the response it stands for
Marked(k) ==
    IF P = 0 THEN /\ \E i \in DOMAIN F.marks :
                        F.marks[i][1] \in 0..1000 /\ BIsZero(F.marks[i][2])
                  /\ \E i \in DOMAIN F.bars : BIsZero(F.bars[i][3])
    ELSE /\ \E i \in DOMAIN F.marks :
              Matches(F.marks[i][1], 2) /\ Is(F.marks[i][2], top)
         /\ \E i \in DOMAIN F.bars : LET b == F.bars[i] IN
              /\ Matches(b[1], 2) /\ Is(b[3], top) /\ Is(b[4], top)
              /\ b[2] % Million6 = 0
              /\ LET j == b[2] \div Million6 IN
                 j \in 0..W /\ Is(F.line[k][2][j + 1], top)
JudgeDir(k) ==
    IF ~F.want[k] THEN {}
    ELSE If(IF P = 0 THEN /\ Zero(F.line[k][1]) /\ Zero(F.line[k][2])
                          /\ Len(F.line[k][1]) = 2 * hpd + 1
                          /\ Len(F.line[k][2]) = 2 * hpd + 1
            ELSE TRUE, "C31.no-load")
         \cup If(Start0(k), "C31.start")
         \cup If(Marked(k), "C31.mark")
JudgeFig == If(ToSet(F.names) = Wanted /\ F.time, "C31.lines")
            \cup If(/\ Len(F.marks) = Cardinality({k \in 1..2 : F.want[k]})
                    /\ Len(F.bars) = Len(F.marks), "C31.marks")
Ended == /\ InMonth /\ dir > 0 /\ (Simulated \/ ~F.want[dir])
         /\ LET b == bad \cup JudgeDir(dir) IN
            IF dir = 1 THEN /\ Start(2) /\ bad' = b
                            /\ UNCHANGED <<lvars, done>>
            ELSE /\ MonthStep /\ dir' = 0 /\ UNCHANGED kvars
                 /\ IF m = Len(cal) THEN Close(b \cup JudgeFig \cup Kept)
                    ELSE bad' = b \cup JudgeFig /\ UNCHANGED done
         /\ UNCHANGED <<fvars, t>>
TNext == Refuse \/ Map \/ Files \/ Curves \/ Draw \/ Hourly
         \/ Walk \/ Begin \/ Simulate \/ Ended
TSpec == TInit /\ [][TNext]_<<lvars, kvars, fvars, mine>>
=============================================================================
