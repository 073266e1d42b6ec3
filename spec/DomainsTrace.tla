---------------------------- MODULE DomainsTrace ----------------------------
(***************************************************************************)
(* Domains built by the code against Domains: the construction is run for  *)
(* the recorded request and each field it emits is compared with the field *)
(* at the same place of the recorded domains.                              *)
(***************************************************************************)
EXTENDS Domains, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, bad
tvars == <<t, l, bad>>
T == Traces[t]
Clause(x) == T.prop \o "." \o x

Request(r) ==
    \* the near-square design on a given length
    IF r.routine = "near" /\ r.upper = 0
    THEN [r EXCEPT !.lower = 1, !.upper = NumFloor(r.L1, r.Bm1)]
    ELSE r

TInit == /\ t \in DOMAIN Traces
         /\ l = 0 /\ bad = <<>>
         /\ DInit(Request(Traces[t].req))

Stop(b) == /\ bad' = <<b>>
           /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(b))

Raised == T.out # "ok"
Obs(a, b) == T.obs[a][b]
Has(a, b) == a \in DOMAIN T.obs /\ b \in DOMAIN T.obs[a]
Expected(f) == IF T.swap THEN Swap(Keys(f)) ELSE Keys(f)
MatchObs(f, a, b) == Has(a, b) /\ SeqIs(Obs(a, b), Expected(f))

\* When a column and a row are equally good, the code chooses
Tie == ph = "inner" /\ ColumnGain = RowGain /\ i < v1 - 2 /\ j < v2 - 2
ColumnSeen == MatchObs(Mk("zoned", v1, v2, i + 1, j, S1(v1), S2(v2)), d, l + 1)

Counts ==
    {Clause("count") : c \in {q \in DOMAIN T.counts :
        T.counts[q][4] # (IF T.counts[q][3] = "ceil"
                          THEN NumCeil(T.counts[q][1], T.counts[q][2])
                          ELSE NumFloor(T.counts[q][1], T.counts[q][2]))}}

Refuse == /\ l = 0 /\ bad = <<>> /\ Raised
          /\ Stop({Clause("error")}) /\ UNCHANGED <<dvars, t, l>>

Build == /\ bad = <<>> /\ ~Raised /\ Emitting
         /\ Tie => (field'.a = i + 1) = ColumnSeen
         /\ l' = IF fresh' THEN 1 ELSE l + 1
         /\ IF MatchObs(field', d', l') THEN UNCHANGED bad
            ELSE Stop({IF Has(d', l') THEN Clause("field")
                       ELSE Clause("missing")})
         /\ UNCHANGED t

Turn == /\ bad = <<>> /\ ~Raised /\ Silent
        /\ IF d' # d /\ Len(T.obs[d]) # l THEN Stop({Clause("extra")})
           ELSE UNCHANGED bad
        /\ UNCHANGED <<t, l>>

End == /\ bad = <<>> /\ ~Raised /\ ph = "end"
       /\ Stop(Counts \cup
               (IF Len(T.obs) # d THEN {Clause("domains")} ELSE {}) \cup
               (IF Len(T.obs[d]) # l THEN {Clause("extra")} ELSE {}))
       /\ UNCHANGED <<dvars, t, l>>

TNext == Refuse \/ Build \/ Turn \/ End
TSpec == TInit /\ [][TNext]_<<dvars, tvars>>
=============================================================================
