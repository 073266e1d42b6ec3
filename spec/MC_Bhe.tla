------------------------------- MODULE MC_Bhe -------------------------------
(* Every sequence of changes, updates and questions over two values.       *)
EXTENDS Bhe
CONSTANT V
VARIABLES since,    \* parameters set since the last update
          upd       \* an update has just ended
mcvars == <<cur, val, step, since, upd>>
P == {"flow", "fluid", "pipe", "grout", "height"}
Init == \E p \in [P -> V] : BInit(p) /\ since = {} /\ upd = FALSE
Next == \/ \E f \in P, v \in V : Set(f, v) /\ since' = since \cup {f} /\ upd' = FALSE
        \/ \E m \in V \cup {0}, fl \in V \cup {0} :
              Begin(m, fl) /\ UNCHANGED since /\ upd' = FALSE
        \/ Compute /\ since' = (IF step' = 0 THEN {} ELSE since)
              /\ upd' = (step' = 0)
Spec == Init /\ [][Next]_mcvars
(* After an update it is what a new one would be *)
Fresh == upd => Synced /\ val = New(cur)
(* and nothing goes stale but by a change that was not followed by one *)
OnlySet == step = 0 => \A q \in Quantities : UpToDate(q) \/ since \cap Dep[q] # {}
(* An update is the composition of its steps *)
Atomic == [][(step > 0 /\ step' = 0) => val' = New(cur')]_mcvars
Types == \A q \in Quantities : DOMAIN val[q] = Dep[q]
=============================================================================
