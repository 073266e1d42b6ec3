------------------------------- MODULE Equiv --------------------------------
(***************************************************************************)
(* The equivalent single U-tube (C23).  The two tubes of the equivalent    *)
(* take the volumes of the source; the borehole is kept unless the tubes   *)
(* do not fit; then the pipe and after it the grout conductivity are       *)
(* varied within bounds until the resistances match as closely as they can.*)
(* A resistance is a decreasing sequence over the admissible               *)
(* conductivities; matching ends at a k between which and k + 1 (or k - 1) *)
(* the target lies, or else at the bound that comes closest.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES src,     \* [ro, rb, pipe, grout, tp, tg]: radii, the resistances
                   \* per conductivity and their targets
          eq,      \* [rb, s, kp, kg] of the equivalent, 0: not yet
          stage    \* "geometry", "pipe", "grout", "done"
evars == <<src, eq, stage>>

Unit == 30         \* lengths of the source are multiples of 1 / Unit
(* radius and three times the shank spacing that let two tubes fit *)
Room(rb, ro) == 2 * rb - 4 * ro
Fitted(rb, ro) == IF Room(rb, ro) > 0 THEN [rb |-> rb, s3 |-> Room(rb, ro)]
                  ELSE LET r == rb - Room(rb, ro) IN
                       [rb |-> r + r \div 5, s3 |-> r \div 5]
Dist(a, b) == IF a > b THEN a - b ELSE b - a
(* the admissible results of matching a target *)
Matching(f, t) ==
    LET n == Len(f)
        Cross(k, j) == (f[k] <= t /\ t <= f[j]) \/ (f[j] <= t /\ t <= f[k]) IN
    IF (f[1] <= t /\ t <= f[n]) \/ (f[n] <= t /\ t <= f[1])
    THEN {k \in 1..n : f[k] = t \/ \E j \in {k - 1, k + 1} \cap (1..n) : Cross(k, j)}
    ELSE IF Dist(f[n], t) <= Dist(f[1], t) THEN {n} ELSE {1}

EInit(s) == src = s /\ stage = "geometry"
            /\ eq = [rb |-> 0, s3 |-> 0, kp |-> 0, kg |-> 0]
Geometry == /\ stage = "geometry" /\ stage' = "pipe" /\ UNCHANGED src
            /\ LET f == Fitted(src.rb, src.ro) IN
               eq' = [eq EXCEPT !.rb = f.rb, !.s3 = f.s3]
MatchPipe == /\ stage = "pipe" /\ stage' = "grout" /\ UNCHANGED src
             /\ \E k \in Matching(src.pipe, src.tp) : eq' = [eq EXCEPT !.kp = k]
MatchGrout == /\ stage = "grout" /\ stage' = "done" /\ UNCHANGED src
              /\ \E k \in Matching(src.grout, src.tg) : eq' = [eq EXCEPT !.kg = k]
ENext == Geometry \/ MatchPipe \/ MatchGrout

(* Guarantees *)
\* two tubes with a gap s = s3 / 3 around the centre: s/2 + 2 ro <= rb
Fits == stage # "geometry" => eq.s3 > 0 /\ eq.s3 + 12 * src.ro <= 6 * eq.rb
Kept == stage # "geometry" /\ src.rb > 2 * src.ro => eq.rb = src.rb
Grown == stage # "geometry" => eq.rb >= src.rb
\* no other admissible conductivity comes closer on the same side
Closest(f, t, k) == \A j \in 1..Len(f) :
    Dist(f[j], t) < Dist(f[k], t) =>
        \E a \in {k - 1, k + 1} \cap (1..Len(f)) :
            (f[a] - t) * (f[k] - t) <= 0
Matched == stage = "done" => Closest(src.pipe, src.tp, eq.kp)
                             /\ Closest(src.grout, src.tg, eq.kg)
=============================================================================
