---------------------------- MODULE MC_Figures ----------------------------
(* Every load of up to Hrs hours; outlines and fields of a small grid.     *)
EXTENDS Figures
CONSTANTS Hrs, Top, Side
Vals == (0 - Top)..Top
Init == \E n \in 0..Hrs : \E d \in [1..n -> Vals] : FInit(d)
Spec == Init /\ [][\E n \in 1..2 : DrawHour(n)]_fvars
\* the figure does not depend on how many data are drawn at a time
Whole == Drawn =>
    /\ rej = SelectSeq([k \in 1..Len(data) |-> <<k - 1, data[k]>>],
                       LAMBDA p : p[2] < 0)
    /\ Len(rej) + Len(ext) = Cardinality({k \in DOMAIN data : data[k] # 0})
Points == (0..Side) \X (0..Side)
Polys == UNION {[1..n -> Points] : n \in 0..2}
ASSUME \A p \in Polys : LET c == Closed(p) IN
    IF p = <<>> THEN c = p
    ELSE c[1] = c[Len(c)] /\ SubSeq(c, 1, Len(p)) = p /\ Len(c) = Len(p) + 1
\* bags of marks: an order of them does not matter, their number does
ASSUME \A p \in Polys : SameMarks(p, Reverse(p))
ASSUME \A p, q \in Polys : SameMarks(p, q) => SameMarks(q, p)
ASSUME \A p \in Polys : \A e \in Points : ~SameMarks(p, Append(p, e))
\* a ratio has one way to be written, or two when it lies between them
ASSUME \A b \in 1..6, h \in {24, 48, 96, 97} :
    LET W == {r \in 0..4000 : Written(r, b, h)} IN
    /\ W # {} /\ Cardinality(W) <= 2
    /\ \A r, s \in W : r - s \in -1..1
\* the record is in step with the months, whichever of them have no load
ASSUME \A l \in [1..4 -> 0..Top] : LET R == Responses(l) IN
    Len(R) = 4 /\ \A k \in 1..4 : l[k] > 0 => R[k] = l[k]
=============================================================================
