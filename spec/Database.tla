------------------------------ MODULE Database ------------------------------
(***************************************************************************)
(* A g-function database (C28): entries [b, h, r, d, g] are read one after *)
(* the other into curves in order of height, d < 0 where none is given.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLES src, default, k, cur
dvars == <<src, default, k, cur>>
DInit(s, d) == src = s /\ default = d /\ k = 1 /\ cur = <<>>
Deep(e) == [h |-> e.h, r |-> e.r, g |-> e.g,
            d |-> IF e.d < 0 THEN default ELSE e.d]
Below(h) == Cardinality({j \in 1..Len(cur) : cur[j].h < h})
Read == /\ k <= Len(src)
        /\ LET e == Deep(src[k]) n == Below(e.h) IN
           cur' = SubSeq(cur, 1, n) \o <<e>> \o SubSeq(cur, n + 1, Len(cur))
        /\ k' = k + 1 /\ UNCHANGED <<src, default>>
ReadAll == k > Len(src)
(* Guarantees *)
Ordered == \A j \in 2..Len(cur) : cur[j - 1].h < cur[j].h
Each == ReadAll => /\ Len(cur) = Len(src)
                   /\ \A j \in 1..Len(src) : Deep(src[j]) \in {cur[a] : a \in 1..Len(cur)}
=============================================================================
