---------------------------- MODULE ReportTrace -----------------------------
(* Recorded histories of reports against Report (C25).  refs describe      *)
(* fields made anew at a height with given curves, sims their simulations. *)
EXTENDS Report, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, i, bad
T == Traces[t]
O == T.ops[i]
Near(a, b, tol) == BNear(a, b, tol)
Alike(a, b, tol) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Near(a[j], b[j], tol)
Names == {1, 2}
TInit == /\ t \in DOMAIN Traces /\ i = 1 /\ bad = {}
         /\ RInit(Traces[t].start, Traces[t].kinds, Names)
Here(r, f) == r.f = f /\ r.cur = cur[f] /\ r.h = h[f]
Ref == T.refs[CHOOSE j \in 1..Len(T.refs) : Here(T.refs[j], O.f)]
SimRef(w, f) == T.sims[CHOOSE j \in 1..Len(T.sims) :
    T.sims[j].f = f /\ T.sims[j].cur = w.cur /\ T.sims[j].m = w.m /\ T.sims[j].h = w.h]
C(cond, clause) == IF cond THEN {} ELSE {clause}

(* points at, which are points I of the curve *)
Points(at, I, curve, tol, clause) ==
    C(Len(at) = Len(I) /\ Spread(I, Len(curve)), clause \o "-points")
    \cup C(/\ Len(at) = Len(I)
           /\ \A j \in 1..Len(I) : I[j] \in 1..Len(curve) => Alike(at[j], curve[I[j]], tol),
           clause \o "-curve")
Increasing(at) == \A j \in 2..Len(at) : BLt(at[j - 1][1], at[j][1])

(* the height of now, and the number of boreholes *)
Headed(r) == C(Near(r.h, h[O.f], T.shown), "C25.height")
             \cup C(r.n = Len(T.xy[O.f]), "C25.count")
Shows(x) == C(Near(x.h, h[O.f], <<100>>), "C25.exported-height")
            \cup C(x.n = Len(T.xy[O.f]), "C25.exported-count")
            \cup C(Increasing(x.at), "C25.exported-order")
            \cup (IF ~Clean(O.f) THEN {}
                  ELSE C(Alike(x.tube, Ref.tube, T.tol), "C25.exported-tube")
                       \cup Points(x.at, x.idx, Ref.curve, T.tol, "C25.exported"))
Excess(hi, lo) == BMax(BSub(hi, T.lim[O.f][1]), BSub(T.lim[O.f][2], lo))
Temps(p) == LET w == res[O.f] IN
    IF w = Unclear THEN {}
    ELSE IF w = None THEN C(p.temp = <<>>, "C25.temperatures")
    ELSE LET s == SimRef(w, O.f) IN
         C(Alike(p.temp, <<s.ext[1], s.ext[2], Excess(s.ext[1], s.ext[2])>>, T.shown),
           "C25.temperatures")
Printed(p) == Headed(p) \cup Temps(p)
    \cup C(Near(p.B, T.B[O.f], T.shown), "C25.spacing")
    \cup C(Alike(p.sim, T.sim[O.f], T.shown), "C25.simulation")
    \cup C(Len(p.xy) = Len(T.xy[O.f]) /\ \A j \in 1..Len(p.xy) :
               Alike(p.xy[j], T.xy[O.f][j], T.shown), "C25.coordinates")
    \cup C(Len(p.peaks) = 12 /\ \A m \in 1..12 :
               Alike(p.peaks[m], T.peaks[O.f][m], <<20>>), "C25.peaks")
    \cup (IF ~Clean(O.f) THEN {}
          ELSE C(Alike(p.res, Ref.res, T.shown), "C25.resistances")
               \cup Points(p.at, p.idx, Ref.curve, T.shown, "C25.printed"))

Shown(n) == O.files[n]
Before(n) == IF i = 1 THEN "" ELSE T.ops[i - 1].files[n]
Kept0 == \A n \in Names : (O.op = "export" /\ O.n = n /\ O.out = "ok") \/ Shown(n) = Before(n)
Judge(more) ==
    bad' = bad \cup more
        \cup UNION {C(O.now[f] = h'[f], "C25.changed") : f \in DOMAIN h}
        \cup C(Kept0 /\ O.others = 0, "C25.files")
        \cup C(\A n \in Names : (shelf'[n] = Empty) = (Shown(n) = ""), "C25.file")

MoveT == O.op = "move" /\ Other(Move(O.f, O.to)) /\ Judge({})
ComputeT == O.op = "compute" /\ Other(Compute(O.f)) /\ Judge(C(O.out = "ok", "C25.error"))
SimulateT == /\ O.op = "simulate" /\ Other(Simulate(O.f, O.m))
             /\ Judge(C(O.out = "ok", "C25.error"))
SizeT == /\ O.op = "size"
         /\ IF O.out = "ok" THEN Other(Size(O.f, O.m, O.now[O.f]))
            ELSE Other(RefusedSize(O.f, O.now[O.f]))
         /\ Judge(C(O.out = "ok" \/ cur[O.f] = "one", "C25.error"))
ExportT == /\ O.op = "export"
           /\ IF Ref.out = "ok"
              THEN /\ Export(O.f, O.n)
                   /\ Judge(IF O.out # "ok" THEN {"C25.error"} ELSE Shows(O.shows))
              ELSE /\ Other(Refused(O.f, h[O.f]))
                   /\ Judge(C(O.out # "ok", "C25.answered"))
PrintT0 == /\ O.op = "print" /\ Print(O.f)
           /\ IF Ref.out = "ok"
              THEN Judge(IF O.out # "ok" THEN {"C25.error"} ELSE Printed(O.prints))
              ELSE Judge(C(O.out # "ok", "C25.answered"))
Op == /\ i <= Len(T.ops)
      /\ (MoveT \/ ComputeT \/ SimulateT \/ SizeT \/ ExportT \/ PrintT0)
      /\ i' = i + 1 /\ UNCHANGED t
End == /\ i = Len(T.ops) + 1 /\ i' = i + 1
       /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad \cup C(T.found, "C25.field")))
       /\ UNCHANGED <<rvars, t, bad>>
TNext == Op \/ End
TSpec == TInit /\ [][TNext]_<<rvars, t, i, bad>>
=============================================================================
