----------------------------- MODULE MC_Describe ----------------------------
(* A few of the figures of every kind take different values.               *)
EXTENDS Describe, FiniteSets
CONSTANTS Values, Live
VARIABLE steps
Movable(k) == Figures(k) \cap Live
Init == /\ \E k \in Kinds : DInit(k, [f \in Figures(k) |-> <<0>>])
        /\ steps = 0
Next == /\ steps < 4 /\ steps' = steps + 1
        /\ \/ Describe
           \/ \E f \in Movable(kind), v \in Values : Change([par EXCEPT ![f] = <<v>>])
Spec == Init /\ [][Next]_<<dvars, steps>>
\* a description has a line for every figure, and shows it nowhere else
Where(k, f) == {i \in DOMAIN Template(k) : Template(k)[i][3] = f}
Once == \A k \in Kinds : \A f \in Figures(k) : Cardinality(Where(k, f)) = 1
Complete == doc # <<>> => Len(doc) = Len(Template(kind))
\* just written, a description is of this moment
Fresh == [][Describe => \A f \in Figures(kind) : \A i \in Where(kind, f) :
               doc'[i].shown = par[f]]_<<dvars, steps>>
\* a change shows in its own line only
Local == [][(doc # <<>> /\ doc'# doc) =>
              \A i \in DOMAIN doc : doc[i].label = doc'[i].label]_<<dvars, steps>>
\* the same label appears twice only in different sections
Section(k, i) == CHOOSE s \in 1..i : /\ Template(k)[s][3] = "nothing"
                    /\ \A j \in (s + 1)..i : Template(k)[j][3] # "nothing"
ASSUME \A k \in Kinds : \A i, j \in DOMAIN Template(k) :
    i # j => <<Section(k, i), Template(k)[i][1]>> # <<Section(k, j), Template(k)[j][1]>>
=============================================================================
