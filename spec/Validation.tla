----------------------------- MODULE Validation -----------------------------
(***************************************************************************)
(* Which requests are to be answered and which are to be refused (C26).    *)
(* A request is a record; its kind says what is asked for.  It goes        *)
(* through checks in turn and is refused by the first that it fails; a     *)
(* refused request leaves no trace on later ones.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES req,      \* the request being handled
          at,       \* the next check, 0 when no request is being handled
          answer    \* "none", "answered" or "refused"
vvars == <<req, at, answer>>

Routines == {"near-square", "rectangle", "bi-rectangle", "bi-zoned"}
Inputs == {"length", "width", "B", "B_min", "B_max_x", "B_max_y"}
Needed(r) ==
    CASE r = "near-square" -> {"length", "B"}
      [] r = "rectangle" -> {"length", "width", "B_min", "B_max_x"}
      [] r \in {"bi-rectangle", "bi-zoned"} -> Inputs \ {"B"}
      [] OTHER -> {}
Flows == {"borehole", "system"}
Methods == {"hybrid", "hourly"}
Units == {"W", "kW"}
Configs == {"series", "parallel", "none"}
\* in any case
Segments == {"equal", "Equal", "EQUAL", "unequal", "Unequal", "UNEQUAL"}
Boundaries == {"UHTR", "UBWT", "MIFT"}
Exchangers == {"SingleUTube", "MultipleUTube", "CoaxialPipe"}
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
HoursOfYear(y) == IF Leap(y) THEN 8784 ELSE 8760
Range(s) == {s[i] : i \in 1..Len(s)}

(* The checks of a request, in order.  Each has a name and a condition.    *)
Check(n, c) == [name |-> n, holds |-> c]
Checks(q) ==
    CASE q.kind = "design" ->
            <<Check("routine", q.routine \in Routines),
              Check("inputs", Needed(q.routine) \subseteq Range(q.given))>>
      [] q.kind = "find" ->
            <<Check("flow", q.flow \in Flows),
              Check("method", q.method \in Methods)>>
      [] q.kind = "simulate" -> <<Check("method", q.method \in Methods)>>
      [] q.kind = "size" -> <<Check("method", q.method \in Methods)>>
      [] q.kind = "flow" -> <<Check("flow", q.flow \in Flows)>>
      [] q.kind = "range" ->
            <<Check("lower", q.lower >= 1), Check("upper", q.upper >= 1),
              Check("order", q.lower <= q.upper)>>
      [] q.kind = "field" -> <<Check("boreholes", q.boreholes >= 1)>>
      [] q.kind = "loads" ->
            <<Check("rejection", q.rejection = HoursOfYear(q.year)),
              Check("extraction", q.extraction = HoursOfYear(q.year))>>
      [] q.kind = "exchange" -> <<Check("hours", q.hours = HoursOfYear(2019))>>
      [] q.kind \in {"split", "synthetic"} -> <<Check("unit", q.unit \in Units)>>
      [] q.kind = "tubes" -> <<Check("config", q.config \in Configs \ {"none"})>>
      [] q.kind = "config" ->
            <<Check("config", q.config \in Configs)>>
      [] q.kind = "gfunction" ->
            <<Check("segments", q.segments \in Segments),
              Check("boundary", q.boundary \in Boundaries)>>
      [] q.kind = "equivalent" -> <<Check("type", q.type \in Exchangers)>>
      [] q.kind = "interior" ->
            <<Check("x", q.ix <= q.nx - 2), Check("y", q.iy <= q.ny - 2)>>
      [] q.kind = "curve" ->
            <<Check("curves", q.curves >= 2
                              \/ (q.curves = 1 /\ q.same /\ q.way = "default"))>>
Valid(q) == \A k \in 1..Len(Checks(q)) : Checks(q)[k].holds
Failing(q) == {Checks(q)[k].name : k \in {k \in 1..Len(Checks(q)) :
                                              ~Checks(q)[k].holds}}

Ask(q) == at = 0 /\ req' = q /\ at' = 1 /\ answer' = "none"
Pass == /\ at > 0 /\ at <= Len(Checks(req)) /\ Checks(req)[at].holds
        /\ at' = at + 1 /\ UNCHANGED <<req, answer>>
Refuse == /\ at > 0 /\ at <= Len(Checks(req)) /\ ~Checks(req)[at].holds
          /\ at' = 0 /\ answer' = "refused" /\ UNCHANGED req
Answer == /\ at > 0 /\ at = Len(Checks(req)) + 1
          /\ at' = 0 /\ answer' = "answered" /\ UNCHANGED req
=============================================================================
