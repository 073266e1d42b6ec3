------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* Field heat exchangers that are simulated, sized and given new curves in *)
(* any order (C29), also with another flow or fluid.  What a simulation    *)
(* uses is represented by the height and settings it was computed from.  A simulation refreshes the parts    *)
(* one after the other, each from the parts before it; sizing simulates at *)
(* heights of its choice and ends at its solution.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES h,        \* field -> height
          own,      \* field -> its settings (flow and fluid)
          cur,      \* field -> curves: "one", "table" or "three"
          of,       \* field -> the settings its curves were computed for
          part,     \* field -> part -> what it was computed from
          res,      \* field -> what the last results were computed from
          phase     \* the operation under way: [f, m, step, left, goal]
fvars == <<h, own, cur, of, part, res, phase>>

Parts == <<"resistance", "equivalent", "short", "long">>
PartSet == {Parts[k] : k \in 1..Len(Parts)}
Rest == [f |-> 0, m |-> "", step |-> 0, sizing |-> FALSE, goal |-> 0]
Unclear == [h |-> 0, own |-> 0, cur |-> "", of |-> 0, m |-> "?", parts |-> <<>>]
None == [h |-> 0, own |-> 0, cur |-> "", of |-> 0, m |-> "", parts |-> <<>>]
Made == 1             \* the settings a field is made with
Point(height, o) == [h |-> height, own |-> o]
Idle == phase.step = 0
(* the results of a field made anew at this height with these curves *)
Anew(height, o, c, k, m) == [h |-> height, own |-> o, cur |-> c, of |-> k, m |-> m,
                             parts |-> [q \in PartSet |-> Point(height, o)]]
(* one curve is only good for the height it was computed for *)
Possible(c, height, h0) == c # "one" \/ height = h0

FInit(h0, c0) ==
    /\ h = h0 /\ cur = c0 /\ phase = Rest
    /\ own = [f \in DOMAIN h0 |-> Made] /\ of = own
    /\ part = [f \in DOMAIN h0 |-> [q \in PartSet |-> Point(h0[f], Made)]]
    /\ res = [f \in DOMAIN h0 |-> None]
Move(f, x) == /\ Idle /\ h' = [h EXCEPT ![f] = x]
              /\ UNCHANGED <<own, cur, of, part, res, phase>>
(* another flow and fluid *)
Tune(f, o) == /\ Idle /\ own' = [own EXCEPT ![f] = o]
              /\ UNCHANGED <<h, cur, of, part, res, phase>>
Compute(f) == /\ Idle /\ cur' = [cur EXCEPT ![f] = "three"]
              /\ of' = [of EXCEPT ![f] = own[f]]
              /\ UNCHANGED <<h, own, part, res, phase>>
Begin(f, m) == /\ Idle /\ phase' = [Rest EXCEPT !.f = f, !.m = m, !.step = 1]
               /\ UNCHANGED <<h, own, cur, of, part, res>>
Reads(f, q) == CASE q \in {"resistance", "long"} -> Point(h[f], own[f])
                 [] q = "equivalent" -> part[f]["resistance"]
                 [] q = "short" -> part[f]["equivalent"]
Refresh == /\ phase.step \in 1..Len(Parts)
           /\ LET f == phase.f q == Parts[phase.step] IN
                 part' = [part EXCEPT ![f][q] = Reads(f, q)]
           /\ phase' = [phase EXCEPT !.step = @ + 1]
           /\ UNCHANGED <<h, own, cur, of, res>>
Evaluated == phase.step = Len(Parts) + 1
Results(f, m) == [h |-> h[f], own |-> own[f], cur |-> cur[f], of |-> of[f], m |-> m,
                  parts |-> part[f]]
Finish == /\ Evaluated /\ ~phase.sizing
          /\ res' = [res EXCEPT ![phase.f] = Results(phase.f, phase.m)]
          /\ phase' = Rest /\ UNCHANGED <<h, own, cur, of, part>>
(* sizing: evaluate at x; go on at another height, or end at the solution, *)
(* which is evaluated once more unless it is the last one evaluated        *)
BeginSize(f, m, x) ==
    /\ Idle /\ h' = [h EXCEPT ![f] = x]
    /\ phase' = [Rest EXCEPT !.f = f, !.m = m, !.step = 1, !.sizing = TRUE]
    /\ UNCHANGED <<own, cur, of, part, res>>
Try(x, root) ==
    /\ Evaluated /\ phase.sizing
    /\ res' = [res EXCEPT ![phase.f] = Results(phase.f, phase.m)]
    /\ IF phase.goal = 0 /\ x # root
       THEN /\ h' = [h EXCEPT ![phase.f] = x]
            /\ phase' = [phase EXCEPT !.step = 1]
       ELSE IF h[phase.f] = root THEN phase' = Rest /\ h' = h
       ELSE /\ h' = [h EXCEPT ![phase.f] = root]
            /\ phase' = [phase EXCEPT !.step = 1, !.goal = root]
    /\ UNCHANGED <<own, cur, of, part>>

(* The same operations in one step, as they are seen from outside.         *)
Simulate(f, m) ==
    /\ Idle /\ res' = [res EXCEPT ![f] = Anew(h[f], own[f], cur[f], of[f], m)]
    /\ part' = [part EXCEPT ![f] = [q \in PartSet |-> Point(h[f], own[f])]]
    /\ UNCHANGED <<h, own, cur, of, phase>>
Size(f, m, root) ==
    /\ Idle /\ h' = [h EXCEPT ![f] = root]
    /\ res' = [res EXCEPT ![f] = Anew(root, own[f], cur[f], of[f], m)]
    /\ part' = [part EXCEPT ![f] = [q \in PartSet |-> Point(root, own[f])]]
    /\ UNCHANGED <<own, cur, of, phase>>
(* an operation that is refused gives no results and may have moved *)
Refused(f, x) == /\ Idle /\ h' = [h EXCEPT ![f] = x]
                 /\ UNCHANGED <<own, cur, of, part, res, phase>>
(* sizing that is refused may have simulated at some heights before *)
RefusedSize(f, x) == /\ Idle /\ h' = [h EXCEPT ![f] = x]
                     /\ res' = [res EXCEPT ![f] = Unclear]
                     /\ UNCHANGED <<own, cur, of, part, phase>>

(* At rest, the results are those of a field made anew. *)
AsNew == Idle => \A f \in DOMAIN h :
    \/ res[f] \in {None, Unclear}
    \/ LET r == res[f] IN r = Anew(r.h, r.own, r.cur, r.of, r.m)
=============================================================================
