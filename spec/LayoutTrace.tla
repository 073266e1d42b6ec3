---------------------------- MODULE LayoutTrace ----------------------------
(***************************************************************************)
(* Calls of the layout functions, one state per call, against the shapes   *)
(* of Layouts (C10).                                                       *)
(***************************************************************************)
EXTENDS Layouts, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, bad
vars == <<t, l, bad>>
Calls == Traces[t].calls

TInit == t \in DOMAIN Traces /\ l = 1 /\ bad = {}

Transposed(a, b) == /\ Len(a) = Len(b)
                    /\ \A i \in DOMAIN a : a[i] = <<b[i][2], b[i][1]>>
Judge(c) ==
    IF c.field.shape = "zoned" /\ ~ZonedFits(c.field.n1, c.field.n2,
                                             c.field.a, c.field.b)
    THEN IF c.out = "ValueError" THEN {} ELSE {"C10.accepted"}
    ELSE IF c.out # "ok" THEN {"C10.error"}
    ELSE (IF Len(c.obs) # Size(c.field) THEN {"C10.count." \o c.field.shape}
          ELSE IF ~SeqIs(c.obs, Keys(c.field))
          THEN {"C10.points." \o c.field.shape} ELSE {})
         \cup (IF ~Transposed(c.obsT, c.obs) THEN {"C10.transpose"} ELSE {})

Call == /\ l <= Len(Calls)
        /\ bad' = bad \cup Judge(Calls[l])
        /\ l' = l + 1
        /\ UNCHANGED t
        /\ l = Len(Calls) =>
             PrintT("VERDICT " \o ToString(t) \o " " \o ToString(bad'))
TNext == Call
TSpec == TInit /\ [][TNext]_vars
=============================================================================
