------------------------------ MODULE Figures ------------------------------
(***************************************************************************)
(* What a figure of a design shows (C31): the data of the design, one      *)
(* datum at a time, and nothing else.                                      *)
(*                                                                         *)
(*   hours    the signed load of every hour of the year: the hours with    *)
(*            extraction and the hours with rejection are marks of their   *)
(*            own series, (hour, load)                                     *)
(*   area     a mark for every borehole, the outline of the property and   *)
(*            that of the building, closed                                 *)
(*   curves   a line for every stored curve, named by the spacing and its  *)
(*            height, with the ratio of the two written at it              *)
(*   domain   a file for every candidate field, in the order of the domain *)
(*   month    the responses to the two-day loads of one month, a place of  *)
(*            the record being kept for every month of the year            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VARIABLES data,    \* what is still to be drawn: a sequence
          seen,    \* how many data have been drawn
          rej, ext \* marks of the two series of the figure
fvars == <<data, seen, rej, ext>>

FInit(d) == data = d /\ seen = 0 /\ rej = <<>> /\ ext = <<>>

(* An hour with load 0 has no mark *)
DrawHour(n) ==
    /\ seen < Len(data)
    /\ LET upto == IF seen + n > Len(data) THEN Len(data) ELSE seen + n
           new == [k \in 1..(upto - seen) |-> <<seen + k - 1, data[seen + k]>>]
       IN  /\ seen' = upto
           /\ rej' = rej \o SelectSeq(new, LAMBDA p : p[2] < 0)
           /\ ext' = ext \o SelectSeq(new, LAMBDA p : p[2] > 0)
    /\ UNCHANGED data
Drawn == seen = Len(data)

(* An outline returns to its first corner *)
Closed(poly) == IF poly = <<>> THEN <<>> ELSE Append(poly, poly[1])
\* two sequences with the same elements, as often
Times(s, e) == Cardinality({k \in DOMAIN s : s[k] = e})
SameMarks(s, o) == /\ Len(s) = Len(o)
                   /\ \A e \in ToSet(s) \cup ToSet(o) : Times(s, e) = Times(o, e)

(* b/h as it is written, in ten thousandths: the nearest whole number *)
Written(r, b, h) == LET d == r * h - 10000 * b
                        a == IF d < 0 THEN -d ELSE d IN 2 * a <= h

(* The record of responses has a place for every month *)
Responses(loads) == [k \in 1..Len(loads) |->
                        IF loads[k] = 0 THEN "none" ELSE loads[k]]

(* Guarantees *)
HoursOf(s) == {s[k][1] : k \in DOMAIN s}
EveryHourOnce ==
    /\ HoursOf(rej) \cap HoursOf(ext) = {}
    /\ Cardinality(HoursOf(rej)) = Len(rej)
    /\ Cardinality(HoursOf(ext)) = Len(ext)
    /\ HoursOf(rej) \cup HoursOf(ext) =
           {h \in 0..(seen - 1) : data[h + 1] # 0}
LoadsShown == \A s \in {rej, ext} : \A k \in DOMAIN s :
                  s[k][2] = data[s[k][1] + 1]
InOrder == \A s \in {rej, ext} : \A j, k \in DOMAIN s :
                  j < k => s[j][1] < s[k][1]
SignsApart == /\ \A k \in DOMAIN rej : rej[k][2] < 0
              /\ \A k \in DOMAIN ext : ext[k][2] > 0
=============================================================================
