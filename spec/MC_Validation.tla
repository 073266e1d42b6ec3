--------------------------- MODULE MC_Validation ----------------------------
(* Every request with few values; the answer is that of its conditions,    *)
(* and no input that a routine does not need changes its answer.           *)
EXTENDS Validation, TLC, SequencesExt
CONSTANTS Counts
Few == -1..3
Str(S) == S \cup {"other"}
Requests ==
    [kind : {"design"}, routine : Str(Routines), given : {SetToSeq(S) : S \in SUBSET Inputs}]
    \cup [kind : {"find"}, flow : Str(Flows), method : Str(Methods)]
    \cup [kind : {"simulate", "size"}, method : Str(Methods)]
    \cup [kind : {"flow"}, flow : Str(Flows)]
    \cup [kind : {"range"}, lower : Counts, upper : Counts]
    \cup [kind : {"field"}, boreholes : Counts \cap Nat]
    \cup [kind : {"loads"}, year : {2019, 2020, 1900, 2000},
          rejection : {0, 8759, 8760, 8784}, extraction : {0, 8759, 8760, 8784}]
    \cup [kind : {"exchange"}, hours : {0, 8759, 8760, 8784}]
    \cup [kind : {"split", "synthetic"}, unit : Str(Units)]
    \cup [kind : {"config", "tubes"}, config : Str(Configs)]
    \cup [kind : {"gfunction"}, segments : Str(Segments), boundary : Str(Boundaries)]
    \cup [kind : {"equivalent"}, type : Str(Exchangers)]
    \cup [kind : {"interior"}, nx : Counts, ny : Counts, ix : Counts, iy : Counts]
    \cup [kind : {"curve"}, curves : Counts \cap Nat, same : BOOLEAN,
          way : {"default", "linear", "lagrange"}]
Init == req = [kind |-> "none"] /\ at = 0 /\ answer = "none"
\* one request before and one after stand for every history
Next == \/ \E q \in Requests : req.kind = "none" /\ Ask(q)
        \/ Pass \/ Refuse \/ Answer
Spec == Init /\ [][Next]_vvars /\ WF_vvars(Next)
Right == answer # "none" => (answer = "answered" <=> Valid(req))
\* what a routine does not need changes nothing
Unneeded == req.kind = "design" /\ req.routine \in Routines =>
    \A S \in SUBSET (Inputs \ Needed(req.routine)) :
        Valid(req) <=> Valid([req EXCEPT !.given =
                                SetToSeq((Range(@) \cap Needed(req.routine)) \cup S)])
Monotone == req.kind = "design" /\ Valid(req) =>
    \A x \in Inputs : Valid([req EXCEPT !.given = Append(@, x)])
ASSUME \A r \in Routines : \A x \in Needed(r) :
    ~Valid([kind |-> "design", routine |-> r, given |-> SetToSeq(Needed(r) \ {x})])
Ends == (req.kind # "none") ~> (answer # "none")
=============================================================================
