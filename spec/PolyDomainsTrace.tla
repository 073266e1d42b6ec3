-------------------------- MODULE PolyDomainsTrace --------------------------
(* Polygonal domains built by the code against PolyDomains (C12); request  *)
(* and polygons are in dm, observed keys in mm.                            *)
EXTENDS PolyDomains, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, bad
T == Traces[t]
TInit == /\ t \in DOMAIN Traces /\ bad = <<>>
         /\ PInit(Traces[t].req, Traces[t].prop, Traces[t].hole, Traces[t].swap)
Stop(b) == /\ bad' = <<b>>
           /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))

Mm(points) == {<<K(100 * p[1][1], p[1][2]), K(100 * p[2][1], p[2][2])>> :
               p \in points}
Set(f) == {f[k] : k \in DOMAIN f}
Times(x, s) == Cardinality({k \in DOMAIN s : s[k] = x})
Judge(want, got) ==
    LET w == [k \in DOMAIN want |-> Mm(want[k])]
        o == [k \in DOMAIN got |-> Set(got[k])]
    IN  (IF \E k \in DOMAIN got : Len(got[k]) # Cardinality(o[k])
         THEN {"C12.twice"} ELSE {}) \cup
        (IF \E k \in DOMAIN o : o[k] = {} THEN {"C12.empty"} ELSE {}) \cup
        (IF \E k \in 1..(Len(got) - 1) : Len(got[k]) > Len(got[k + 1])
         THEN {"C12.order"} ELSE {}) \cup
        (IF \E k \in DOMAIN w : Times(w[k], o) < Times(w[k], w)
         THEN {"C12.lost"} ELSE {}) \cup
        (IF \E k \in DOMAIN o : Times(o[k], o) > Times(o[k], w)
         THEN {"C12.field"} ELSE {})

Refuse == bad = <<>> /\ T.out # "ok" /\ Stop({"C12.error"})
          /\ UNCHANGED <<dvars, pvars, t>>
Building == bad = <<>> /\ T.out = "ok"
Walk == /\ Building /\ ph # "end" /\ Take /\ UNCHANGED <<t, bad>>
HandOver ==
    /\ Building /\ ph # "end" /\ Hand
    /\ IF given'[1] \notin DOMAIN T.obs THEN Stop({"C12.domains"})
       ELSE LET b == Judge(given'[2], T.obs[given'[1]]) IN
            IF b = {} THEN UNCHANGED bad ELSE Stop(b)
    /\ UNCHANGED t
Finish == /\ Building /\ ph = "end"
          /\ Stop((IF Len(T.obs) # d THEN {"C12.domains"} ELSE {}) \cup
                  (IF ~Bounds(g, property, swapped) THEN {"C12.bounds"} ELSE {})
                  \cup (IF T.intact THEN {} ELSE {"C12.input-changed"}))
          /\ UNCHANGED <<dvars, pvars, t>>
TNext == Refuse \/ Walk \/ HandOver \/ Finish
TSpec == TInit /\ [][TNext]_<<dvars, pvars, t, bad>>
=============================================================================
