----------------------------- MODULE EquivTrace -----------------------------
(* Recorded equivalents against Equiv (C23).  12 decimals throughout.  The *)
(* conductivities are real here: between k - d and k + d a crossing is     *)
(* found.                                                                  *)
EXTENDS Equiv, Big, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, bad
tv == <<src, eq, stage, t, bad>>
T == Traces[t]
Close(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : BNear(a[j], b[j], T.tol)
Sq(a) == BMul(a, a)
(* squares of the radii of fluid and of fluid and pipe, over all tubes *)
Coax == T.kind = "coaxial"
FluidArea == IF Coax THEN BAdd(Sq(T.rin[1]), BSub(Sq(T.rout[1]), Sq(T.rin[2])))
             ELSE BMulI(Sq(T.rin[1]), 2 * T.n)
PipeArea == IF Coax THEN BAdd(BSub(Sq(T.rin[2]), Sq(T.rin[1])),
                              BSub(Sq(T.rout[2]), Sq(T.rout[1])))
            ELSE BMulI(BSub(Sq(T.rout[1]), Sq(T.rin[1])), 2 * T.n)
AreaTol == BPow10(13)            \* of some 10^20
Volumes == (IF BNear(BMulI(Sq(T.e.rin), 2), FluidArea, AreaTol) THEN {} ELSE {"C23.fluid"})
    \cup (IF BNear(BMulI(BSub(Sq(T.e.rout), Sq(T.e.rin)), 2), PipeArea, AreaTol)
          THEN {} ELSE {"C23.pipe"})
(* the pipes are inside the borehole, apart, and the borehole is only      *)
(* enlarged if two tubes do not fit                                        *)
Slack == BPow10(3)
Inside(x, y) == BLeq(BAdd(Sq(x), Sq(y)), Sq(BAdd(BSub(T.e.rb, T.e.rout), Slack)))
                /\ BLeq(T.e.rout, T.e.rb)
Apart == BLeq(BMulI(Sq(BSub(T.e.rout, Slack)), 4),
              BAdd(Sq(BSub(T.e.pos[1], T.e.pos[3])), Sq(BSub(T.e.pos[2], T.e.pos[4]))))
RoomB == BSub(T.rb, BMulI(T.e.rout, 2))      \* half of Room
Geo == /\ T.e.pipes = 2 /\ Apart
       /\ Inside(T.e.pos[1], T.e.pos[2]) /\ Inside(T.e.pos[3], T.e.pos[4])
       /\ BLeq(BSub(T.rb, <<1>>), T.e.rb)
       /\ BLt(Slack, RoomB) => BNear(T.e.rb, T.rb, <<1>>)
Keeps == IF Close(T.keep, T.keep0) THEN {} ELSE {"C23.kept"}
Unchanged == IF T.src = T.src2 THEN {} ELSE {"C23.original"}
Again == IF Close(T.first, T.again) THEN {} ELSE {"C23.repeat"}
(* Matching with real conductivities *)
OK(m) == LET Out(x, y) == BLeq(x, BAdd(y, m.tiny)) IN
    \/ Out(m.above, m.target) /\ Out(m.target, m.below)
    \/ BNear(m.k, m.hi, m.d) /\ Out(m.target, m.athi)
    \/ BNear(m.k, m.lo, m.d) /\ Out(m.atlo, m.target)
Resist(m, c) == (IF OK(m) THEN {} ELSE {c})
    \cup (IF BNear(m.now, m.fresh, m.tiny) THEN {} ELSE {c \o "_state"})

TInit == /\ t \in DOMAIN Traces /\ bad = {} /\ src = Traces[t].kind
         /\ eq = <<>> /\ stage = "geometry"
End(b) == PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))
Fail == /\ stage = "geometry" /\ T.out # "ok" /\ stage' = "done"
        /\ bad' = {"C23.error"} /\ End(bad') /\ UNCHANGED <<src, eq, t>>
Own == /\ stage = "geometry" /\ T.out = "ok" /\ T.kind = "single"
       /\ stage' = "done"
       /\ bad' = Unchanged \cup Again \cup
                 (IF Close(T.first, T.src) THEN {} ELSE {"C23.single"})
       /\ End(bad') /\ UNCHANGED <<src, eq, t>>
GeoT == /\ stage = "geometry" /\ T.out = "ok" /\ T.kind # "single"
        /\ stage' = "pipe" /\ eq' = T.e
        /\ bad' = bad \cup Volumes \cup (IF Geo THEN {} ELSE {"C23.fit"})
                  \cup Keeps \cup Unchanged \cup Again
        /\ UNCHANGED <<src, t>>
PipeT == /\ stage = "pipe" /\ stage' = "grout"
         /\ bad' = bad \cup Resist(T.pipe, "C23.pipe_resistance")
         /\ UNCHANGED <<src, eq, t>>
GroutT == /\ stage = "grout" /\ stage' = "done"
          /\ bad' = bad \cup Resist(T.grout, "C23.borehole_resistance")
                    \cup (IF BIsZero(T.e.kg) THEN {} ELSE {"C23.grout"})
          /\ End(bad') /\ UNCHANGED <<src, eq, t>>
TNext == Fail \/ Own \/ GeoT \/ PipeT \/ GroutT
TSpec == TInit /\ [][TNext]_tv
=============================================================================
