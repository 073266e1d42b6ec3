----------------------------- MODULE MC_Search -----------------------------
(* Exhaustive check of Search for small problems.                          *)
EXTENDS Search
CONSTANTS Mode,     \* "1d" | "2d" | "zd"
          MaxLen,   \* longest list of candidates
          MaxE,     \* excess temperatures are -MaxE..MaxE
          MaxDoms,  \* most nested domains
          MaxH      \* sized heights are 1..MaxH

E == -MaxE..MaxE
Field(x, x0, hh, nn) == [n |-> nn, e |-> x, e0 |-> x0, h |-> hh]

(* strictly falling profiles *)
Falls == UNION {{f \in [1..k -> E] : \A i \in 1..(k - 1) : f[i] > f[i + 1]} :
                k \in 1..MaxLen}
DomsOf(d) == {[i \in DOMAIN f |->
                  Field(f[i], IF i = 1 /\ s = 1 THEN MaxE + 1 ELSE
                              IF i = 1 THEN (IF f[i] < 0 THEN 0 ELSE f[i] + 1)
                              ELSE f[i] + 1, hh, i + d)] :
                 f \in Falls, s \in 0..1, hh \in 1..MaxH}
Doms1 == DomsOf(1)
Doms2 == DomsOf(2)
Doms3 == DomsOf(3)
Nested == {<<a>> : a \in Doms1}
          \cup (IF MaxDoms >= 2 THEN {<<a, b>> : a \in Doms1, b \in Doms2} ELSE {})
          \cup (IF MaxDoms >= 3 THEN {<<a, b, c>> : a \in Doms1, b \in Doms2,
                                                c \in Doms3} ELSE {})

(* any profile, any excess of the first field at the minimum height *)
InitOne == \E k \in 1..MaxLen : \E f \in [1..k -> E] :
             \E x0 \in -MaxE..(MaxE + 1) :
                SearchInit([mode |-> "1d",
                            doms |-> << [i \in 1..k |->
                                Field(f[i], IF i = 1 THEN x0 ELSE f[i] + 1,
                                      1, i)] >>])
InitNested == \E d \in Nested : SearchInit([mode |-> Mode, doms |-> d])
Init == IF Mode = "1d" THEN InitOne ELSE InitNested
Spec == Init /\ [][SearchNext]_svars /\ WF_svars(SearchNext)
Terminates == <>(pc = "end")
=============================================================================
