----------------------------- MODULE Candidate -----------------------------
(***************************************************************************)
(* Flow, spacing and geometry of one evaluated field (C05).                *)
(* V, B, rho are big integers with 9 decimals, m has 12, heights 3, radius *)
(* and depth 6 and offsets between boreholes 6 decimals.                   *)
(***************************************************************************)
EXTENDS Big, FiniteSets

(* |a - b| <= 10^-7 |b| *)
Close(a, b) == BLeq(BMul(BAbs(BSub(a, b)), BPow10(7)), BAbs(b))

(* System flow of a field of n boreholes *)
SystemFlowOK(flow, V, n, Vsys) ==
    Close(Vsys, IF flow = "borehole" THEN BMulI(V, n) ELSE V)

(* Mass flow of a borehole (kg/s) from flow (L/s) and density (kg/m3):     *)
(* m * 1000 * n = Vsys * rho                                               *)
MassFlowOK(flow, V, rho, n, m) ==
    LET total == BMul(IF flow = "borehole" THEN BMulI(V, n) ELSE V, rho)
    IN  Close(BMul(BMulI(BMulI(m, n), 1000), BPow10(6)), total)

(* Spacing: the distance to the second borehole, at least the radius *)
SpacingOK(n, dx, dy, rb, B) ==
    LET radius == BMul(BInt(rb), BPow10(3))
        d2 == BMul(BAdd(BMul(BInt(dx), BInt(dx)), BMul(BInt(dy), BInt(dy))),
                   BPow10(6))
        r2 == BMul(radius, radius)
    IN  IF n = 1 \/ BLeq(d2, r2) THEN Close(B, radius)
        ELSE Close(BMul(B, B), d2)

(* All of it for one evaluation e of field f of a problem T *)
EvalErrors(T, f, e) ==
    (IF ~SystemFlowOK(T.flow, T.V, e.n, e.V) THEN {"flow"} ELSE {})
    \cup (IF ~MassFlowOK(T.flow, T.V, T.rho, e.n, e.m)
          THEN {"massflow"} ELSE {})
    \cup (IF ~SpacingOK(e.n, f.dx, f.dy, T.rb, e.B) THEN {"spacing"} ELSE {})
    \cup (IF e.n # f.n THEN {"count"} ELSE {})
    \cup (IF e.rb # T.rb \/ e.D # T.D THEN {"geometry"} ELSE {})
    \cup (IF ~e.g THEN {"nogfunction"} ELSE
          (IF ~MassFlowOK(T.flow, T.V, T.rho, e.n, e.gm)
           THEN {"gmassflow"} ELSE {})
          \cup (IF ~SpacingOK(e.n, f.dx, f.dy, T.rb, e.gB)
                THEN {"gspacing"} ELSE {})
          \cup (IF ~e.gxy THEN {"gcoordinates"} ELSE {})
          \cup (IF \E i \in DOMAIN e.grb : e.grb[i] # T.rb
                THEN {"gradius"} ELSE {})
          \cup (IF \E i \in DOMAIN e.gD : e.gD[i] # T.D
                THEN {"gdepth"} ELSE {}))
=============================================================================
