-------------------------------- MODULE Bhe ---------------------------------
(***************************************************************************)
(* A borehole heat exchanger and what is derived from its parameters (C22).*)
(* A derived quantity is represented by the parameter values it was last   *)
(* computed from; a quantity is up to date when those are the current ones.*)
(* An update recomputes the quantities one after the other: flow per pipe, *)
(* film and wall, fluid to pipe resistance, borehole resistance.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES cur,     \* parameter -> current value
          val,     \* quantity -> the parameter values it was computed from
          step     \* 0 at rest, else the next quantity of the update
bvars == <<cur, val, step>>

Order == <<"flow", "re", "film", "wall", "grout", "fp", "rb">>
Quantities == {Order[i] : i \in 1..Len(Order)}
Dep == [flow |-> {"flow"}, re |-> {"flow", "fluid"},
        film |-> {"flow", "fluid"}, wall |-> {"pipe"}, grout |-> {"grout"},
        fp |-> {"flow", "fluid", "pipe"},
        rb |-> {"flow", "fluid", "pipe", "grout", "height"}]
Restrict(p, S) == [x \in S |-> p[x]]
New(p) == [q \in Quantities |-> Restrict(p, Dep[q])]
UpToDate(q) == val[q] = Restrict(cur, Dep[q])
Synced == \A q \in Quantities : UpToDate(q)

BInit(p) == cur = p /\ val = New(p) /\ step = 0
(* a parameter is changed without telling the heat exchanger *)
Set(f, v) == step = 0 /\ cur' = [cur EXCEPT ![f] = v] /\ UNCHANGED <<val, step>>
With(p, m, fl) == [p EXCEPT !.flow = IF m = 0 THEN @ ELSE m,
                            !.fluid = IF fl = 0 THEN @ ELSE fl]
(* an update, or a question with a new flow (m) or fluid (fl); 0: none *)
Begin(m, fl) == step = 0 /\ cur' = With(cur, m, fl) /\ step' = 1
                /\ UNCHANGED val
\* what the recomputation of a quantity reads
Merge(a, b) == [x \in DOMAIN a \cup DOMAIN b |->
                    IF x \in DOMAIN b THEN b[x] ELSE a[x]]
Reads(q) ==
    CASE q = "flow" -> Restrict(cur, {"flow"})
      [] q \in {"re", "film"} -> Merge(val["flow"], Restrict(cur, {"fluid"}))
      [] q = "wall" -> Restrict(cur, {"pipe"})
      [] q = "grout" -> Restrict(cur, {"grout"})
      [] q = "fp" -> Merge(val["film"], val["wall"])
      [] q = "rb" -> Merge(val["fp"], Restrict(cur, {"grout", "height"}))
Compute == /\ step > 0
           /\ val' = [val EXCEPT ![Order[step]] = Reads(Order[step])]
           /\ step' = IF step = Len(Order) THEN 0 ELSE step + 1
           /\ UNCHANGED cur
(* the whole update, as the trace specification takes it *)
Update(m, fl) == step = 0 /\ cur' = With(cur, m, fl) /\ val' = New(cur')
                 /\ UNCHANGED step
=============================================================================
