----------------------------- MODULE MC_Domains -----------------------------
(* Exhaustive check of Domains for small lands.                            *)
EXTENDS Domains
CONSTANTS MaxL, MaxB, Routines
Lands(r) ==
    [routine : {r}, L1 : 1..MaxL, L2 : 1..MaxL, Bmin : 1..MaxB, Bm1 : 1..MaxB,
     Bm2 : 1..MaxB, lower : {0}, upper : {0}]
Nears == [routine : {"near"}, L1 : {0}, L2 : {0}, Bmin : {0}, Bm1 : 1..MaxB,
          Bm2 : {0}, lower : 1..MaxL, upper : 1..MaxL]
Ones == [routine : {"zoned1"}, L1 : 1..MaxL, L2 : 1..MaxL, Bmin : {0},
         Bm1 : {0}, Bm2 : {0}, lower : 3..7, upper : 3..7]
Init == \E rt \in Routines : \E r \in IF rt = "near" THEN Nears
                                     ELSE IF rt = "zoned1" THEN Ones
                                     ELSE Lands(rt) :
          /\ rt \notin {"near"} => r.L1 >= r.L2
          /\ rt \notin {"near", "zoned1"} => r.Bmin <= r.Bm1 /\ r.Bmin <= r.Bm2
          /\ rt = "rect" => r.Bm2 = r.Bm1
          /\ Buildable(r)
          /\ DInit(r)
Spec == Init /\ [][DNext]_dvars /\ WF_dvars(DNext)
\* no dead end: the construction goes on until its end
Live == ph # "end" => ENABLED DNext
=============================================================================
