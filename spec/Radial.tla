------------------------------- MODULE Radial -------------------------------
(***************************************************************************)
(* The short time step response of a borehole (C30): a chain of rings from *)
(* the fluid outwards.  c[i] is the heat a ring takes per degree and time  *)
(* step, g[i] the conductance from ring i to ring i+1; the ring after the  *)
(* last one stays at the ground temperature.  A unit of heat enters the    *)
(* first ring in every step, and the new temperatures T (above that of the *)
(* ground) are those at which every ring is in balance.                    *)
(***************************************************************************)
EXTENDS Big, FiniteSets

VARIABLES net,      \* [c, g]
          n,        \* steps done
          old, T,   \* temperatures before and after the last step
          gone,     \* heat that has left the last ring
          q         \* the unit of heat per step, in the scale of the numbers
rvars == <<net, n, old, T, gone, q>>

Rings == 1..Len(net.c)
At(v, i) == IF i > Len(v) THEN BZero ELSE v[i]
(* Heat that enters ring i from within during a step that ends at new *)
Into(i, new, heat) == IF i = 1 THEN heat
                      ELSE BMul(net.g[i - 1], BSub(new[i - 1], new[i]))
Leaves(i, new) == BMul(net.g[i], BSub(new[i], At(new, i + 1)))
Stored(i, before, new) == BMul(net.c[i], BSub(new[i], before[i]))
Residual(i, before, new, heat) ==
    BSub(Into(i, new, heat),
         BAdd(Leaves(i, new), Stored(i, before, new)))
Total(v) == BSumSeq([i \in Rings |-> BMul(net.c[i], v[i])])

(* Guarantees *)
InBalance == n > 0 => \A i \in Rings : BIsZero(Residual(i, old, T, q))
Outward == \A i \in Rings : BLeq(At(T, i + 1), T[i])
Rises == \A i \in Rings : BLeq(old[i], T[i])
Conserves == n > 0 => BEq(BAdd(Total(T), gone), BMulI(q, n))
(* No more than the steady temperature: the resistances in series *)
RECURSIVE ProdG(_)
ProdG(S) == IF S = {} THEN <<1>>
            ELSE LET i == CHOOSE i \in S : TRUE
                 IN  BMul(net.g[i], ProdG(S \ {i}))
Bounded == BLeq(BMul(T[1], ProdG(Rings)),
                BMul(q, BSumSeq([i \in Rings |-> ProdG(Rings \ {i})])))

(***************************************************************************)
(* The rings of a borehole: 3 of fluid, 1 of the film, 4 of pipe, 27 of    *)
(* grout, 500 of soil, the last of which is held.  Radii in 1/27000 pm,    *)
(* so that each is an integer.                                             *)
(***************************************************************************)
Scale(x) == BMulI(x, 27000)
KindOf(i) == CASE i <= 3 -> "fluid" [] i = 4 -> "film" [] i <= 8 -> "pipe"
             [] i <= 35 -> "grout" [] OTHER -> "soil"
(* b: [rb, rin, rout, tube] in pm, tube = sqrt 2 * rout *)
Wall(b) == BSub(b.rout, b.rin)
TubeIn(b) == BSub(b.tube, Wall(b))
FilmIn(b) == BSub(BMulI(TubeIn(b), 4), Wall(b))       \* times 4
CoreIn(b) == BSub(TubeIn(b), Wall(b))
Ring(b, i) ==
    LET w == Wall(b)
        From(start, half, j) == [in |-> BAdd(start, BMulI(half, 2 * j)),
                                 mid |-> BAdd(start, BMulI(half, 2 * j + 1)),
                                 out |-> BAdd(start, BMulI(half, 2 * j + 2))]
        k == KindOf(i)
    IN  CASE k = "fluid" ->
              LET m == BAdd(Scale(CoreIn(b)), BMulI(w, 6750 * (i - 1)))
              IN  [in |-> IF i = 1 THEN m ELSE BSub(m, BMulI(w, 3375)),
                   mid |-> m, out |-> BAdd(m, BMulI(w, 3375))]
        [] k = "film" -> From(BMulI(FilmIn(b), 6750), BMulI(w, 3375), 0)
        [] k = "pipe" -> From(Scale(TubeIn(b)), BMulI(w, 13500), i - 5)
        [] k = "grout" -> From(Scale(b.tube),
                               BMulI(BSub(b.rb, b.tube), 500), i - 9)
        [] OTHER -> From(Scale(b.rb),
              BMulI(BSub(<<0, 0, 0, 10>>, BMulI(b.rb, 2)), 27), i - 36)
=============================================================================
