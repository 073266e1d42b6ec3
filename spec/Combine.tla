------------------------------ MODULE Combine -------------------------------
(***************************************************************************)
(* Short and long time steps in one curve (C21).  Points [x, y]; the short *)
(* ones are taken while they are earlier than the first long one.          *)
(***************************************************************************)
EXTENDS Big, FiniteSets

VARIABLES sts, lts, ln,   \* ln: logarithm of actual to reference radius
          i, out, done
cvars == <<sts, lts, ln, i, out, done>>

CInit(s, l, r) == sts = s /\ lts = l /\ ln = r /\ i = 1 /\ out = <<>>
                  /\ done = FALSE
Earlier == i <= Len(sts) /\ BLt(sts[i].x, lts[1].x)
Take == ~done /\ Earlier /\ out' = Append(out, sts[i]) /\ i' = i + 1
        /\ UNCHANGED <<sts, lts, ln, done>>
Lowered(p) == [x |-> p.x, y |-> BSub(p.y, ln)]
Rest == ~done /\ ~Earlier /\ done' = TRUE
        /\ out' = out \o [j \in 1..Len(lts) |-> Lowered(lts[j])]
        /\ UNCHANGED <<sts, lts, ln, i>>
CNext == Take \/ Rest

Increasing(s) == \A j \in 2..Len(s) : BLt(s[j - 1].x, s[j].x)
(* Guarantees *)
Ascends == Increasing(out)
AllLong == done => \A j \in 1..Len(lts) : Lowered(lts[j]) \in {out[a] : a \in 1..Len(out)}
OnlyEarlier == done => \A j \in 1..Len(sts) :
    (sts[j] \in {out[a] : a \in 1..(Len(out) - Len(lts))})
        = BLt(sts[j].x, lts[1].x)
=============================================================================
