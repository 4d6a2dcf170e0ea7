---------------------------- MODULE TraceBuffer ----------------------------
(***************************************************************************)
(* Validates recorded executions of the implementation against Buffer.     *)
(*                                                                         *)
(* The file named by TRACES has one execution per line:                    *)
(*                                                                         *)
(*   [name, disk, ev: <<event, ...>>]                                      *)
(*                                                                         *)
(* where disk holds the initial contents of the files and every event has  *)
(*                                                                         *)
(*   op     the operation and its arguments, as understood by Predict      *)
(*   ok     whether it returned; an execution ends when one panics         *)
(*   same   whether the content is unchanged; t is the content otherwise   *)
(*   cur    the cursor, mod the modified flag, cbs the notified positions  *)
(*   late   whether the content changed after the last notification        *)
(*   res    the returned value, in the same representation as Predict's    *)
(*   id, syn, path                                                         *)
(*   dsame  whether files are unchanged; disk is what they hold otherwise  *)
(*                                                                         *)
(* Events are deterministic in the specification, so every execution is a  *)
(* single path here. What an event contradicts is reported as the set of   *)
(* facts that don't hold, after which the observed values are adopted so   *)
(* that the rest of the execution can still be checked; whatever can't be  *)
(* observed isn't judged from there on (see taint).                        *)
(***************************************************************************)
EXTENDS Buffer, TLC, Json, IOUtils, SequencesExt

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
    tid,    \* execution being validated
    l,      \* number of events validated
    b,      \* specified state
    taint   \* what the specification has lost track of

vars == <<tid, l, b, taint>>

Ev(t) == Traces[t].ev

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 0
    /\ b = NewBuffer(Traces[tid].disk)
    /\ taint = {}

ObservedText(e, c) == IF e.same THEN c.text ELSE e.t
ObservedDisk(e, c) == IF e.dsame THEN c.disk ELSE e.disk

(* The fact that an operation is primarily about: not returning at all     *)
(* contradicts that one.                                                   *)
PrimaryFact(facts) ==
    IF facts[1] # "none" THEN facts[1] ELSE IF facts[4] # "none" THEN facts[4] ELSE "total"

DiskAgrees(d, e, c) ==
    \A f \in FileNames :
        d[f].k = "unknown" \/ d[f] = ObservedDisk(e, c)[f]

(* Facts contradicted by an event, given the state before and what's       *)
(* predicted.                                                              *)
Contradictions(e, c, o, tt) ==
    IF ~e.ok THEN {PrimaryFact(o.facts), "total"}
    ELSE (IF ObservedText(e, c) # o.b.text THEN {o.facts[1]} ELSE {})
      \cup (IF e.cur # o.b.cur THEN {o.facts[2]} ELSE {})
      \cup (IF e.late \/ ~Explains(o.cbs, e.cbs) THEN {o.facts[3]} ELSE {})
      \cup (IF e.res # o.res THEN {o.facts[4]} ELSE {})
      \cup (IF e.mod # Modified(o.b) THEN {"modified"} ELSE {})
      \cup (IF e.mod # Modified(o.b) /\ o.facts[4] \in {"save.fail", "reload.fail", "save", "reload"}
            THEN {o.facts[4]} ELSE {})
      \cup (IF e.id # o.b.id THEN {"id"} ELSE {})
      \cup (IF e.syn # o.b.syn THEN {"syntax"} ELSE {})
      \cup (IF e.path # o.b.path THEN {"path"} ELSE {})
      \cup (IF ~DiskAgrees(o.b.disk, e, c)
            THEN {IF e.op.op = "save" THEN "save.disk" ELSE "disk"} ELSE {})

HistoryFacts == {"undo", "undo.group", "undo.none", "redo", "redo.group", "redo.none",
                 "modified", "save", "reload", "save.fail", "reload.fail", "notify.undo", "cursor.undo"}
VerticalFacts == {"move.vertical"}

Excused(tt) == (IF "history" \in tt THEN HistoryFacts ELSE {})
               \cup (IF "sticky" \in tt THEN VerticalFacts ELSE {})

Taint(e, c, o, tt) ==
    (IF ObservedText(e, c) # o.b.text \/ e.mod # Modified(o.b) THEN {"history"} ELSE {})
    \cup (IF e.cur # o.b.cur THEN {"sticky"} ELSE {})

(* Nothing is unknown anymore once there's a new buffer. *)
Known(e) == e.op.op \in {"open", "gap-new"}

Resync(e, o) ==
    LET x == o.b IN
    [x EXCEPT !.text = ObservedText(e, b), !.cur = e.cur, !.id = e.id, !.syn = e.syn,
              !.path = e.path, !.disk = ObservedDisk(e, b),
              !.sticky = IF e.cur = x.cur THEN @ ELSE e.cur[2]]

Next ==
    /\ l < Len(Ev(tid))
    /\ LET e == Ev(tid)[l + 1]
           o == Predict(b, e.op)
           found == Contradictions(e, b, o, taint) \ Excused(taint)
       IN /\ l' = l + 1
          /\ b' = IF e.ok THEN Resync(e, o) ELSE b
          /\ taint' = IF ~e.ok THEN taint
                      ELSE IF Known(e) /\ found = {} /\ e.res \in {"ok", ""} THEN {}
                      ELSE taint \cup Taint(e, b, o, taint)
          /\ found # {} =>
               PrintT(ToJson([contradiction |-> found, trace |-> Traces[tid].name, event |-> l + 1,
                              op |-> e.op,
                              before |-> [text |-> b.text, cur |-> b.cur, modified |-> Modified(b)],
                              predicted |-> [text |-> o.b.text, cur |-> o.b.cur, res |-> o.res,
                                             cbs |-> o.cbs, modified |-> Modified(o.b)],
                              ok |-> e.ok,
                              observed |-> [text |-> ObservedText(e, b), cur |-> e.cur, res |-> e.res,
                                            cbs |-> e.cbs, modified |-> e.mod]]))
    /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

View == <<tid, l>>

(* Every event of every execution was looked at: as many distinct states   *)
(* as there are events and initial states.                                 *)
EventCount == FoldLeft(LAMBDA n, t : n + Len(t.ev) + 1, 0, Traces)
Complete == TLCGet("stats").distinct = EventCount
=============================================================================
