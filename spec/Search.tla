------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Field selection of ghedt: the integer bisection over a list of          *)
(* candidate fields ("1d"), the nested search ("2d") and the successive    *)
(* zoned search ("zd").                                                    *)
(*                                                                         *)
(* A field is a record                                                     *)
(*   n   number of boreholes                                               *)
(*   e   excess temperature at the maximum height (<= 0 suffices)          *)
(*   e0  excess temperature at the minimum height                          *)
(*   h   height found by sizing the field                                  *)
(* A problem is a record [mode, doms], doms being a sequence of sequences  *)
(* of fields (one sequence in mode "1d").                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    prob,     \* the problem (constant during a behaviour)
    pc,       \* "probe" | "bisect" | "select" | "found" | "refused" | "end"
    stage,    \* "outer" (list of the largest fields) | "inner" (one domain)
    list,     \* candidate fields of the search in progress
    lo, hi,   \* bracket of the bisection
    seen,     \* indices of list whose excess at the maximum height is known
    res,      \* index found in list
    dom,      \* domain under search (inner stage)
    start,    \* first domain of the successive search
    drill,    \* domain |-> [idx, total] of the domains sized so far
    outcome   \* [kind |-> "none" | "refused" | "field", dom, idx]

svars == <<prob, pc, stage, list, lo, hi, seen, res, dom, start, drill,
           outcome>>

Successive == 7   \* at most this many domains are sized by the zoned search

Suff(x) == x <= 0
Bracket(x, y) == Suff(x) # Suff(y)
Ceil2(x) == (x + 1) \div 2
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Falling(l) == \A i \in 1..(Len(l) - 1) : l[i].e > l[i + 1].e
(* The first field of a list improves with height *)
HeightHelps(l) == l[1].e0 > l[1].e
FirstSufficient(l) == MinOf({i \in DOMAIN l : Suff(l[i].e)})
SomeSufficient(l) == \E i \in DOMAIN l : Suff(l[i].e)

(* One borehole in front, then the largest field of each domain *)
OuterList(doms) ==
    <<doms[1][1]>> \o [i \in 1..Len(doms) |-> doms[i][Len(doms[i])]]

None == [kind |-> "none", dom |-> 0, idx |-> 0]
Refused == [kind |-> "refused", dom |-> 0, idx |-> 0]
FieldOf(d, i) == [kind |-> "field", dom |-> d, idx |-> i]

SearchInit(p) ==
    /\ prob = p
    /\ pc = "probe"
    /\ stage = IF p.mode = "1d" THEN "inner" ELSE "outer"
    /\ list = IF p.mode = "1d" THEN p.doms[1] ELSE OuterList(p.doms)
    /\ lo = 0 /\ hi = 0 /\ seen = {} /\ res = 0
    /\ dom = IF p.mode = "1d" THEN 1 ELSE 0
    /\ start = 0
    /\ drill = <<>>
    /\ outcome = None

(* The first field at both heights and the last field at the maximum one *)
ProbeEnds ==
    /\ pc = "probe"
    /\ seen' = {1, Len(list)}
    /\ IF Bracket(list[1].e0, list[1].e)
       THEN pc' = "found" /\ res' = 1 /\ UNCHANGED <<lo, hi>>
       ELSE IF Bracket(list[1].e, list[Len(list)].e)
       THEN pc' = "bisect" /\ lo' = 1 /\ hi' = Len(list) /\ UNCHANGED res
       ELSE pc' = "refused" /\ UNCHANGED <<lo, hi, res>>
    /\ UNCHANGED <<prob, stage, list, dom, start, drill, outcome>>

Bisect ==
    /\ pc = "bisect"
    /\ LET c == Ceil2(lo + hi) IN
       IF c \in {lo, hi}
       THEN pc' = "select" /\ UNCHANGED <<lo, hi, seen>>
       ELSE /\ seen' = seen \cup {c}
            /\ IF Suff(list[c].e) = Suff(list[1].e)
               THEN lo' = c /\ UNCHANGED hi
               ELSE hi' = c /\ UNCHANGED lo
            /\ UNCHANGED pc
    /\ UNCHANGED <<prob, stage, list, res, dom, start, drill, outcome>>

(* Of the probed fields that suffice, the one with the least margin *)
Select ==
    /\ pc = "select"
    /\ LET good == {i \in seen : Suff(list[i].e)}
           best == MaxOf({list[i].e : i \in good})
       IN  res' = CHOOSE i \in good : list[i].e = best
    /\ pc' = "found"
    /\ UNCHANGED <<prob, stage, list, lo, hi, seen, dom, start, drill,
                   outcome>>

EnterDomain(d) ==
    /\ stage' = "inner" /\ dom' = d /\ list' = prob.doms[d]
    /\ pc' = "probe" /\ seen' = {} /\ res' = 0

(* The outer list is one longer than the list of domains *)
OuterFound ==
    /\ stage = "outer" /\ pc = "found"
    /\ LET d == IF res > 1 THEN res - 1 ELSE 1
       IN  EnterDomain(d) /\ start' = d
    /\ UNCHANGED <<prob, lo, hi, drill, outcome>>

OuterRefused ==
    /\ stage = "outer" /\ pc = "refused"
    /\ outcome' = Refused /\ pc' = "end"
    /\ UNCHANGED <<prob, stage, list, lo, hi, seen, res, dom, start, drill>>

InnerEnd ==
    /\ stage = "inner" /\ prob.mode # "zd" /\ pc \in {"found", "refused"}
    /\ outcome' = IF pc = "found" THEN FieldOf(dom, res) ELSE Refused
    /\ pc' = "end"
    /\ UNCHANGED <<prob, stage, list, lo, hi, seen, res, dom, start, drill>>

Total(d) == drill[d].total
Sized == {start + i - 1 : i \in DOMAIN drill}
DrillOf(d) == drill[d - start + 1]

(* Size the field found, and go on to the next domain while drilling falls *)
ZonedSized ==
    /\ stage = "inner" /\ prob.mode = "zd" /\ pc = "found"
    /\ LET f == list[res]
           tot == f.n * f.h
           grew == drill # <<>> /\ drill[Len(drill)].total < tot
       IN  /\ drill' = Append(drill, [idx |-> res, total |-> tot])
           /\ IF grew \/ dom = Len(prob.doms) \/ Len(drill) + 1 = Successive
              THEN pc' = "pick" /\ UNCHANGED <<stage, list, seen, res, dom>>
              ELSE EnterDomain(dom + 1)
    /\ UNCHANGED <<prob, lo, hi, start, outcome>>

ZonedRefused ==
    /\ stage = "inner" /\ prob.mode = "zd" /\ pc = "refused"
    /\ pc' = IF drill = <<>> THEN "end" ELSE "pick"
    /\ outcome' = IF drill = <<>> THEN Refused ELSE outcome
    /\ UNCHANGED <<prob, stage, list, lo, hi, seen, res, dom, start, drill>>

ZonedPick ==
    /\ pc = "pick"
    /\ LET least == MinOf({drill[i].total : i \in DOMAIN drill})
           i == MinOf({j \in DOMAIN drill : drill[j].total = least})
       IN  outcome' = FieldOf(start + i - 1, drill[i].idx)
    /\ pc' = "end"
    /\ UNCHANGED <<prob, stage, list, lo, hi, seen, res, dom, start, drill>>

SearchNext ==
    \/ ProbeEnds \/ Bisect \/ Select
    \/ OuterFound \/ OuterRefused \/ InnerEnd
    \/ ZonedSized \/ ZonedRefused \/ ZonedPick

(***************************************************************************)
(* What a user may rely on, stated without the algorithm.                  *)
(***************************************************************************)
(* One-dimensional answers allowed for a list of candidates *)
Allowed(l) ==
    IF ~HeightHelps(l)
    THEN {Refused} \cup {FieldOf(1, i) : i \in DOMAIN l}
    ELSE IF ~SomeSufficient(l) THEN {Refused}
    ELSE IF Falling(l)
    THEN IF Suff(l[1].e0) THEN {Refused} ELSE {FieldOf(1, FirstSufficient(l))}
    ELSE {Refused} \cup {FieldOf(1, i) : i \in {j \in DOMAIN l : Suff(l[j].e)}}

OneD(l) == CHOOSE o \in Allowed(l) : TRUE   \* unique for falling profiles

FallingProblem(p) ==
    /\ \A d \in DOMAIN p.doms : Falling(p.doms[d]) /\ HeightHelps(p.doms[d])
    /\ p.mode # "1d" => Falling(OuterList(p.doms))

(* Two-dimensional answer for falling profiles *)
TwoD(p) ==
    LET o == OneD(OuterList(p.doms))
        d == IF o.idx > 1 THEN o.idx - 1 ELSE 1
        i == OneD(p.doms[d])
    IN  IF o.kind = "refused" \/ i.kind = "refused" THEN Refused
        ELSE FieldOf(d, i.idx)

Consistent ==
    \* "Whatever it returns suffices, and refusals are justified" (C01, C02)
    /\ pc = "end" /\ prob.mode = "1d" => outcome \in Allowed(prob.doms[1])
    \* C03
    /\ pc = "end" /\ prob.mode = "2d" /\ FallingProblem(prob)
          => outcome = TwoD(prob)
    \* C04
    /\ pc = "end" /\ prob.mode = "zd" /\ FallingProblem(prob)
          /\ outcome.kind = "field"
          => /\ start = LET o == OneD(OuterList(prob.doms)) IN IF o.idx > 1 THEN o.idx - 1 ELSE 1
             /\ outcome.dom \in Sized
             /\ \A d \in Sized : DrillOf(outcome.dom).total <= DrillOf(d).total
             /\ \A d \in Sized :
                   DrillOf(d).idx = FirstSufficient(prob.doms[d])
             /\ Suff(prob.doms[outcome.dom][outcome.idx].e)
             /\ Cardinality(Sized) <= Successive
             \* every domain before the last one sized did not grow
             /\ \A d \in Sized : d + 1 \in Sized /\ d + 2 \in Sized =>
                   DrillOf(d).total >= DrillOf(d + 1).total

(* Logarithmically many probes *)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)
FewProbes == Cardinality(seen) <= 2 + Log2(Len(list))

TypeOK ==
    /\ pc \in {"probe", "bisect", "select", "found", "refused", "pick", "end"}
    /\ stage \in {"outer", "inner"}
    /\ seen \subseteq DOMAIN list
    /\ pc = "bisect" => lo < hi /\ {lo, hi} \subseteq DOMAIN list
                     /\ Suff(list[lo].e) # Suff(list[hi].e)
                     /\ {lo, hi} \subseteq seen
    /\ pc = "end" <=> outcome.kind # "none"
=============================================================================
