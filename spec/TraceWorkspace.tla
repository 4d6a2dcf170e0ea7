--------------------------- MODULE TraceWorkspace ---------------------------
(***************************************************************************)
(* Validates recorded executions of workspaces against Workspace, in much  *)
(* the same way as TraceBuffer does for those of single buffers. Every     *)
(* execution has                                                           *)
(*                                                                         *)
(*   [name, root, table, disk, ev]                                         *)
(*                                                                         *)
(* and every event everything that Observable predicts, the returned value *)
(* (res), notified positions (cbs) and which callback they were notified   *)
(* to (tags), and files.                                                   *)
(***************************************************************************)
EXTENDS Workspace, TLC, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
    tid,    \* execution being validated
    l,      \* number of events validated
    w,      \* specified state
    lost    \* whether observed and specified states can't be reconciled

vars == <<tid, l, w, lost>>

Ev(t) == Traces[t].ev

Init ==
    /\ tid \in 1..Len(Traces)
    /\ l = 0
    /\ w = NewWorkspace(Traces[tid].root, World.tables[Traces[tid].table], Traces[tid].disk)
    /\ lost = FALSE

ObservedDisk(e) == IF e.dsame THEN w.disk ELSE e.disk

DiskAgrees(d, e) == \A f \in FileNames : d[f].k = "unknown" \/ d[f] = ObservedDisk(e)[f]

(* What's observed differently from what's predicted. *)
Differences(e, o) ==
    LET p == Observable(o.w) IN
         {k \in {"has", "idx", "list", "cpath", "root", "t", "cur", "mod", "id", "syn", "path", "fname", "fext"} : e[k] # p[k]}
    \cup (IF e.res # o.res THEN {"res"} ELSE {})
    \cup (IF \/ ~Explains(o.cbs, e.cbs)
             \/ \E i \in 1..Len(e.tags) : e.tags[i] # CurrentTag(w)
          THEN {"cbs"} ELSE {})
    \cup (IF ~DiskAgrees(o.w.disk, e) THEN {"disk"} ELSE {})

(* Those that don't keep the rest from being checked, once adopted. *)
Adoptable == {"list", "cpath", "root", "syn", "id", "fname", "fext"}

Adopted(e, x) ==
    IF ~HasCurrent(x) THEN x
    ELSE [x EXCEPT !.bufs[x.cur].b.syn = e.syn, !.bufs[x.cur].b.id = e.id]

Next ==
    /\ l < Len(Ev(tid))
    /\ l' = l + 1
    /\ UNCHANGED tid
    /\ IF lost THEN UNCHANGED <<w, lost>>
       ELSE LET e == Ev(tid)[l + 1]
                o == WPredict(w, e.op, e.idx + 1)
                found == IF e.ok THEN Differences(e, o) ELSE {"panic"}
                facts == IF e.ok THEN UNION {FactsOf(e.op)[k] : k \in found}
                         ELSE {"order", OpKind(e.op)}
            IN /\ w' = IF found = {} THEN o.w ELSE Adopted(e, o.w)
               /\ lost' = ~(found \subseteq Adoptable)
               /\ found # {} =>
                    PrintT(ToJson([contradiction |-> facts, trace |-> Traces[tid].name, event |-> l + 1,
                                   op |-> e.op, differences |-> found,
                                   before |-> Observable(w), predicted |-> [Observable(o.w) EXCEPT !.root = o.res],
                                   ok |-> e.ok, observed |-> e]))

Spec == Init /\ [][Next]_vars

View == <<tid, l>>

(* Every event of every execution was looked at. *)
EventCount == FoldLeft(LAMBDA n, t : n + Len(t.ev) + 1, 0, Traces)
Complete == TLCGet("stats").distinct = EventCount

(* What holds in every state, no matter what led to it. *)
Selection == SelectionValid(w)
Unique == lost \/ IdsUnique(w)
=============================================================================
