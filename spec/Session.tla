------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A session with designs (C24): they are made, changed, written to files, *)
(* read back, found and sized in any order, also by other sessions.        *)
(* A design has settings and a borehole, which several designs may share;  *)
(* a find works on a height of its own, that starts from that borehole's.  *)
(* An answer is represented by the settings and the evaluations it came    *)
(* from.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES design,   \* slot -> [set, bore], or Absent
          given,    \* borehole -> its height
          file,     \* name -> [set, height], or NoFile
          answer,   \* slot -> what was found last, or NoAnswer
          work      \* the find under way
svars == <<design, given, file, answer, work>>

Absent == [set |-> 0, bore |-> 0]
NoFile == [set |-> 0, height |-> 0]
NoAnswer == [set |-> 0, used |-> <<>>, sized |-> FALSE]
NoWork == [slot |-> 0, height |-> 0, used |-> <<>>, sizing |-> FALSE]
Idle == work = NoWork
Here(s) == design[s] # Absent

SInit(slots, names, bores, height) ==
    /\ design = [s \in slots |-> Absent] /\ file = [n \in names |-> NoFile]
    /\ given = [b \in bores |-> height]
    /\ answer = [s \in slots |-> NoAnswer] /\ work = NoWork
New(s, k, b) == /\ Idle /\ design' = [design EXCEPT ![s] = [set |-> k, bore |-> b]]
                /\ answer' = [answer EXCEPT ![s] = NoAnswer]
                /\ UNCHANGED <<given, file, work>>
(* a setting of a design is replaced; what was found before stays *)
Change(s, k) == /\ Idle /\ Here(s) /\ design' = [design EXCEPT ![s].set = k]
                /\ UNCHANGED <<given, file, answer, work>>
Save(s, n) == /\ Idle /\ Here(s)
              /\ file' = [file EXCEPT ![n] = [set |-> design[s].set,
                                              height |-> given[design[s].bore]]]
              /\ UNCHANGED <<design, given, answer, work>>
(* what is read has a borehole b of its own *)
Read(n, s, b) == /\ Idle /\ file[n] # NoFile
                 /\ design' = [design EXCEPT ![s] = [set |-> file[n].set, bore |-> b]]
                 /\ given' = [given EXCEPT ![b] = file[n].height]
                 /\ answer' = [answer EXCEPT ![s] = NoAnswer]
                 /\ UNCHANGED <<file, work>>

(* A find: fields are evaluated at heights that the settings determine.    *)
BeginFind(s) == /\ Idle /\ Here(s)
                /\ work' = [NoWork EXCEPT !.slot = s,
                                          !.height = given[design[s].bore]]
                /\ UNCHANGED <<design, given, file, answer>>
Evaluate(Plan(_)) ==
    LET plan == Plan(design[work.slot].set) k == Len(work.used) + 1 IN
    /\ work.slot # 0 /\ ~work.sizing /\ k <= Len(plan)
    /\ work' = [work EXCEPT !.height = plan[k], !.used = Append(@, plan[k])]
    /\ UNCHANGED <<design, given, file, answer>>
EndFind(Plan(_)) ==
    /\ work.slot # 0 /\ ~work.sizing
    /\ Len(work.used) = Len(Plan(design[work.slot].set))
    /\ answer' = [answer EXCEPT ![work.slot] =
          [set |-> design[work.slot].set, used |-> work.used, sized |-> FALSE]]
    /\ work' = NoWork /\ UNCHANGED <<design, given, file>>

(* The same in one step, as it is seen from outside.                       *)
Answer(k, Plan(_)) == [set |-> k, used |-> Plan(k), sized |-> FALSE]
Find(s, Plan(_)) ==
    /\ Idle /\ Here(s)
    /\ answer' = [answer EXCEPT ![s] = Answer(design[s].set, Plan)]
    /\ UNCHANGED <<design, given, file, work>>
Size(s) == /\ Idle /\ answer[s] # NoAnswer
           /\ answer' = [answer EXCEPT ![s].sized = TRUE]
           /\ UNCHANGED <<design, given, file, work>>
\* a find that fails leaves what was found before
Fail(s) == Idle /\ Here(s) /\ UNCHANGED svars
\* another session reads a file and finds its design
Elsewhere(n) == Idle /\ file[n] # NoFile /\ UNCHANGED svars
=============================================================================
