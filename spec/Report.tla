------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* Reports of field heat exchangers (C25): they are exported to files and  *)
(* printed at any moment between simulations, sizings, changes of height   *)
(* and computations of curves (Field).  A report shows the height of now,  *)
(* the equivalent and the short time steps of the last refresh, the long   *)
(* time steps for the height of now, and the last results.  It changes     *)
(* nothing; an export replaces what its file showed before.                *)
(***************************************************************************)
EXTENDS Field, Integers

VARIABLES shelf     \* file -> what it shows
rvars == <<fvars, shelf>>

Empty == [f |-> 0, h |-> 0, cur |-> "", equivalent |-> 0, short |-> 0]
Facts(f) == [f |-> f, h |-> h[f], cur |-> cur[f],
             equivalent |-> part[f]["equivalent"].h, short |-> part[f]["short"].h]
(* the parts are those of the height of now *)
Clean(f) == res[f] # Unclear /\ \A q \in PartSet : part[f][q] = Point(h[f], own[f])
\* what was exported was that of one height
Whole(x) == x.equivalent = x.h /\ x.short = x.h

(* a field with three curves was found by a search that sized it *)
RInit(h0, c0, files) ==
    /\ h = h0 /\ cur = c0 /\ phase = Rest
    /\ own = [f \in DOMAIN h0 |-> Made] /\ of = own
    /\ part = [f \in DOMAIN h0 |-> [q \in PartSet |-> Point(h0[f], Made)]]
    /\ res = [f \in DOMAIN h0 |-> IF c0[f] = "three"
                THEN Anew(h0[f], Made, c0[f], Made, "hybrid") ELSE None]
    /\ shelf = [n \in files |-> Empty]
Export(f, n) == Idle /\ shelf' = [shelf EXCEPT ![n] = Facts(f)] /\ UNCHANGED fvars
Print(f) == Idle /\ UNCHANGED rvars
Other(A) == A /\ UNCHANGED shelf

(***************************************************************************)
(* Of the short time steps an export keeps those from the second on, a     *)
(* printed table those from the first on, evenly spread by a whole number  *)
(* of steps, and of the long ones all 27.                                  *)
(***************************************************************************)
LongSteps == 27
StepFor(all, wanted) == LET s == (all - LongSteps) \div wanted IN IF s = 0 THEN 1 ELSE s
Kept(all, first, wanted) ==
    LET s == StepFor(all, wanted) IN
    {k \in first..(all - LongSteps) : (k - first) % s = 0} \cup (all - LongSteps + 1)..all
(* the requirement: which of the points 1..all are shown *)
Spread(I, all) ==
    LET short == SelectSeq(I, LAMBDA k : k <= all - LongSteps) IN
    /\ \A j \in 1..Len(I) : I[j] \in 1..all
    /\ \A j \in 2..Len(I) : I[j - 1] < I[j]
    /\ \A j \in 3..Len(short) : short[j] - short[j - 1] = short[j - 1] - short[j - 2]
    /\ \A k \in (all - LongSteps + 1)..all : \E j \in 1..Len(I) : I[j] = k
=============================================================================
