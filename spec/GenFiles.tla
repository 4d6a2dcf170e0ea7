----------------------------- MODULE GenFiles -----------------------------
(***************************************************************************)
(* Files (F01 to F03, H04): every sequence of a few edits, undos, redos,   *)
(* saves (also ones that fail half way), reloads, opens, path changes, and *)
(* changes made to the files by others.                                    *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Contents, MaxDepth, WithFaults, WithGroups, Targets, MaxSteps

VARIABLE depth

vars == <<b, past, depth>>

Init ==
    /\ \E s \in Contents :
         LET write == [op |-> "write", f |-> "A", s |-> s]
         IN /\ b = Then(NewBuffer(NoFiles), write)
            /\ past = <<write>>
    /\ depth = 0

Limit == depth < MaxDepth /\ depth' = depth + 1

CanEdit == Len(b.hist) + Len(OpenSteps(b)) < MaxSteps \/ b.h < Len(b.hist)

EditContent ==
    /\ CanEdit
    /\ \/ DoAt(<<0, 0>>, [op |-> "insert", s |-> <<98>>])
       \/ \E s \in Contents : Do([op |-> "replace", s |-> s])

Travel == Do([op |-> "undo"]) \/ Do([op |-> "redo"])

Group == WithGroups /\ (Do([op |-> "begin"]) \/ Do([op |-> "end"]))

SaveSomehow ==
    \/ Do([op |-> "save", limit |-> -1])
    \/ WithFaults /\ \E n \in 0..1 : Do([op |-> "save", limit |-> n])

Repath == \E p \in Targets : p # b.path /\ Do([op |-> "path", to |-> p])

ReloadContent == b.path # "full" /\ CanEdit /\ Do([op |-> "reload"])

OpenFile == \E f \in FileNames \cup (IF WithFaults THEN {"lost", "dir"} ELSE {}) :
                Do([op |-> "open", f |-> f, as |-> 0])

Others ==
    \E f \in FileNames :
        \/ \E s \in Contents : b.disk[f] # File(s) /\ Do([op |-> "write", f |-> f, s |-> s])
        \/ WithFaults /\ b.disk[f] # Binary /\ Do([op |-> "corrupt", f |-> f])
        \/ WithFaults /\ b.disk[f] # Absent /\ Do([op |-> "unlink", f |-> f])

Next == Limit /\ (EditContent \/ Travel \/ Group \/ SaveSomehow \/ Repath \/ ReloadContent \/ OpenFile \/ Others)

Spec == Init /\ [][Next]_vars

View == <<b, depth>>

(* A file whose content is unknown can't be tested any further. *)
Testable == \A f \in FileNames : b.disk[f] # Unknown

Consistent == HistoryConsistent(b)
Sound == FlagSound(b)

(* Failures never change anything but, when they come late, the mark. *)
FailuresKeep ==
    \A op \in {[op |-> "save", limit |-> n] : n \in {-1, 0}} :
        LET o == Predict(b, op) IN
        o.res = "err" => /\ o.b.text = b.text /\ o.b.cur = b.cur /\ o.b.hist = b.hist
                         /\ o.b.h = b.h /\ o.b.path = b.path /\ o.b.grp = b.grp
                         /\ Modified(b) => Modified(o.b)

(* Opening whatever was saved gives it back. *)
RoundTrip ==
    LET o == Save(b, -1) IN
    o.res = "ok" /\ b.path \in FileNames => Open(o.b, b.path).b.text = b.text /\ ~Modified(o.b)

QuickContents == {<<97, 10>>, <<>>}
DeepContents == {<<97, 10>>, <<>>, <<65279, 97, 13, 10, 0>>}
AllTargets == {"none", "A", "B", "lost", "dir", "full"}
=============================================================================
