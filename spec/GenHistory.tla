---------------------------- MODULE GenHistory ----------------------------
(***************************************************************************)
(* Histories (H01 to H04, N01, C03): every sequence of a few edits, undos, *)
(* redos, groups, and saves on short texts whose characters combine with   *)
(* each other.                                                             *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS
    Pieces,         \* texts to insert
    Replacements,   \* texts to replace the content with
    Origins,         \* texts to start from
    MaxLen,         \* code points per document
    MaxSteps,       \* edits in the history
    MaxDepth,       \* operations
    WithGroups, WithFile

VARIABLE depth

vars == <<b, past, depth>>

Init ==
    /\ \E s \in Origins :
         IF WithFile
         THEN \E ops \in {<<[op |-> "write", f |-> "A", s |-> s],
                            [op |-> "open", f |-> "A", as |-> 0]>>} :
                /\ b = Then(Then(NewBuffer(NoFiles), ops[1]), ops[2])
                /\ past = ops
         ELSE Setup([op |-> "replace", s |-> s])
    /\ depth = 0

StepCount == LET RECURSIVE Count(_)
                 Count(i) == IF i = 0 THEN 0 ELSE Len(b.hist[i]) + Count(i - 1)
             IN Count(Len(b.hist)) + Len(OpenSteps(b))

CanEdit == depth < MaxDepth /\ (StepCount < MaxSteps \/ b.h < Len(b.hist))

Deeper == depth' = depth + 1

(* Insertions are done at the ends and in the middle. *)
Spots == LET ps == AllPositions(b.text) IN ps

InsertSomewhere ==
    /\ CanEdit
    /\ \E p \in Spots, s \in Pieces :
        /\ Len(b.text) + Len(s) <= MaxLen
        /\ DoAt(p, [op |-> "insert", s |-> s])
    /\ Deeper

DeleteSomewhere ==
    /\ CanEdit
    /\ \E p \in Spots : DoAt(p, [op |-> "delete"])
    /\ Deeper

DeleteRangeSomewhere ==
    /\ CanEdit
    /\ \E p \in Spots, q \in Spots \cup {<<0, HugeNumber>>, <<HugeNumber, 0>>} :
         /\ Before(p, q)
         /\ Do([op |-> "range", p |-> p, q |-> q])
    /\ Deeper

ReplaceContent ==
    /\ CanEdit
    /\ \E s \in Replacements : Do([op |-> "replace", s |-> s])
    /\ Deeper

Travel ==
    /\ depth < MaxDepth
    /\ Do([op |-> "undo"]) \/ Do([op |-> "redo"])
    /\ Deeper

Group ==
    /\ WithGroups
    /\ depth < MaxDepth
    /\ Do([op |-> "begin"]) \/ Do([op |-> "end"])
    /\ Deeper

Files ==
    /\ WithFile
    /\ depth < MaxDepth
    /\ Do([op |-> "save", limit |-> -1])
    /\ Deeper

Next == InsertSomewhere \/ DeleteSomewhere \/ DeleteRangeSomewhere \/ ReplaceContent \/ Travel \/ Group \/ Files

Spec == Init /\ [][Next]_vars

(* The cursor only matters to replacements, which retain it. *)
View == <<b.text, b.hist, b.h, b.grp, b.saved, b.disk>>

Consistent == HistoryConsistent(b)
Sound == FlagSound(b)
Invertible == UndoRedoInverse(b)
(* Undoing everything leads to where it all started. *)
Returns == Len(b.hist) > 0 => Unwind(b).text = b.hist[1][1].pre

A == <<97>>  Acute == <<769>>  Feed == <<10>>  Return == <<13>>  Woman == <<128105>>
QuickPieces == {A, Acute, Return}
QuickReplacements == {<<98, 10>>}
QuickOrigins == {<<10, 97>>}
DeepPieces == {A, Acute, Feed, Return}
DeepReplacements == {<<98, 10>>, <<>>}
DeepOrigins == {<<>>, <<97, 10>>, <<13, 10, 97>>, <<128105, 8205, 128105>>}
=============================================================================
