---------------------------- MODULE PolyDomains ----------------------------
(***************************************************************************)
(* Domains of a polygonal property (C12): every field the bi-rectangular   *)
(* construction of the bounding rectangle emits is filtered, kept if any   *)
(* borehole is left, and each domain is handed over by growing size.       *)
(* Lengths of the request and the polygons are in the same unit.           *)
(***************************************************************************)
EXTENDS Domains
VARIABLES property, hole,  \* polygons
          swapped,         \* the axes of the construction are swapped
          acc,             \* fields of the domain under way
          given            \* fields of the domain finished last, with its
                           \* number: <<number, fields>>
P == INSTANCE Polygon WITH pts <- <<>>, poly <- <<>>, ri <- TRUE, kc <- TRUE,
                           pos <- 0, out <- <<>>
pvars == <<property, hole, swapped, acc, given>>

Real(p) == IF swapped THEN <<p[2], p[1]>> ELSE p
Drillable(p) == /\ P!Keeps(p, property, FALSE, TRUE)
                /\ P!Keeps(p, hole, TRUE, FALSE)
Survivors(f) == {q \in {Real(p) : p \in Points(f)} : Drillable(q)}

Max1(poly) == CHOOSE m \in {poly[k][1] : k \in DOMAIN poly} :
                 \A k \in DOMAIN poly : poly[k][1] <= m
Max2(poly) == CHOOSE m \in {poly[k][2] : k \in DOMAIN poly} :
                 \A k \in DOMAIN poly : poly[k][2] <= m
\* the rectangle from the origin that contains the property
Bounds(r, q, s) == IF s THEN r.L1 = Max2(q) /\ r.L2 = Max1(q)
                   ELSE r.L1 = Max1(q) /\ r.L2 = Max2(q)

PInit(r, q, h, s) == /\ DInit(r) /\ property = q /\ hole = h /\ swapped = s
                     /\ acc = <<>> /\ given = <<0, <<>>>>

Take == /\ Emitting
        /\ LET k == Survivors(field') IN
           acc' = IF k = {} THEN acc ELSE Append(acc, k)
        /\ UNCHANGED <<property, hole, swapped, given>>

\* a stable order by size
RECURSIVE Sorted(_)
Insert(s, x) == LET n == Cardinality({m \in DOMAIN s :
                                       Cardinality(s[m]) <= Cardinality(x)})
                IN  SubSeq(s, 1, n) \o <<x>> \o SubSeq(s, n + 1, Len(s))
Sorted(s) == IF s = <<>> THEN <<>>
             ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

\* the last domain is handed over when the construction ends
Hand == /\ Silent
        /\ given' = <<d, Sorted(acc)>> /\ acc' = <<>>
        /\ UNCHANGED <<property, hole, swapped>>
PNext == Take \/ Hand

(* Guarantees *)
NoneMissing == \A k \in DOMAIN given[2] : given[2][k] # {}
OrderedSizes == \A k \in 1..(Len(given[2]) - 1) :
    Cardinality(given[2][k]) <= Cardinality(given[2][k + 1])
AllDrillable == \A k \in DOMAIN given[2] : \A p \in given[2][k] : Drillable(p)
=============================================================================
