------------------------------- MODULE Sizing -------------------------------
(***************************************************************************)
(* Sizing (C19) as a bracketing search: both limits are evaluated, then    *)
(* any height strictly between the bracket is, until the excess vanishes   *)
(* or the bracket is as narrow as the tolerance.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES lo, hi,      \* bracket
          at,          \* height of the last evaluation, 0 before any
          res          \* final height, 0 while searching
zvars == <<lo, hi, at, res>>

ZInit(a, b) == lo = a /\ hi = b /\ at = 0 /\ res = 0
Limits(Ex(_)) ==
    /\ at = 0
    /\ at' = hi
    /\ res' = IF Ex(lo) < 0 THEN lo ELSE IF Ex(hi) > 0 THEN hi ELSE 0
    /\ UNCHANGED <<lo, hi>>
Try(Ex(_), tol) ==
    /\ at # 0 /\ res = 0 /\ hi - lo > tol
    /\ \E h \in (lo + 1)..(hi - 1) :
          /\ at' = h
          /\ IF Ex(h) = 0 THEN res' = h /\ UNCHANGED <<lo, hi>>
             ELSE IF Ex(h) > 0 THEN lo' = h /\ UNCHANGED <<hi, res>>
             ELSE hi' = h /\ UNCHANGED <<lo, res>>
Stop(tol) == /\ at # 0 /\ res = 0 /\ hi - lo <= tol
             /\ res' \in {lo, hi} /\ UNCHANGED <<lo, hi, at>>
\* the field is simulated once more if another height was evaluated last
Leave == /\ res # 0 /\ at # res /\ at' = res /\ UNCHANGED <<lo, hi, res>>
Finished == res # 0 /\ at = res

(* What a final height must satisfy, for limits a < b and excess Ex that   *)
(* falls with height: a root within tol, or the limit nearest to it.       *)
Good(Ex(_), a, b, tol, h) ==
    LET below == IF h - tol < a THEN a ELSE h - tol
        above == IF h + tol > b THEN b ELSE h + tol IN
    /\ h \in a..b
    /\ \/ Ex(below) >= 0 /\ Ex(above) <= 0
       \/ h = a /\ Ex(a) < 0
       \/ h = b /\ Ex(b) > 0
=============================================================================
