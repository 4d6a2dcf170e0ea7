---------------------------- MODULE HistoryImpl ----------------------------
(***************************************************************************)
(* How histories are implemented: as two stacks of operations that know    *)
(* how to reverse themselves, and the number of operations that were       *)
(* applied when the buffer was last in sync with its file. This is run in  *)
(* lockstep with Buffer, which only knows what histories have to achieve,  *)
(* and has to agree with it throughout.                                    *)
(*                                                                         *)
(* Design is a set of decisions, all of which are needed (the "Without"    *)
(* configurations leave one of them out each, and have to fail):           *)
(*                                                                         *)
(*   "offsets"  operations are reversed based on the offset they were      *)
(*              applied at and what they inserted or removed, as opposed   *)
(*              to based on positions, which mean something else as soon   *)
(*              as characters combine                                      *)
(*   "close"    undoing closes an open group first                         *)
(*   "hold"     there's nothing to redo while a group is open              *)
(*   "open"     the modified flag considers an open group's operations     *)
(*   "split"    syncing splits an open group                               *)
(*   "drop"     the mark is dropped when what it refers to is superseded   *)
(*   "clear"    failing to write to a file drops the mark                  *)
(***************************************************************************)
EXTENDS Buffer, TLC

CONSTANTS Design, Pieces, Origins, MaxLen, MaxSteps

VARIABLES
    b,      \* the buffer, as specified
    text,   \* content
    prev,   \* operations that can be reversed
    next,   \* operations that can be run again; the last one comes first
    group,  \* <<>>, or <<operations>>
    mark    \* number of operations, or -1

vars == <<b, text, prev, next, group, mark>>

With(decision) == decision \in Design

NoFiles == [f \in FileNames |-> Absent]

Init ==
    /\ \E s \in Origins : text = s
    /\ b = [NewBuffer(NoFiles) EXCEPT !.text = text, !.path = "A", !.saved = 0, !.synced = text]
    /\ prev = <<>> /\ next = <<>> /\ group = <<>> /\ mark = 0

---------------------------------------------------------------------------
(* Operations: [k, p, q, s, off, gone], i.e. kind, range or position, text *)
(* to insert or replace with, and once run: the offset it was applied at   *)
(* and text that's been removed.                                           *)

Operation(k, p, q, s) == [k |-> k, p |-> p, q |-> q, s |-> s, off |-> 0, gone |-> <<>>]

Removed(t, off, shorter) == SubSeq(t, off, off + Len(t) - Len(shorter) - 1)

(* The text after running an operation, and the operation. *)
RunOn(t, op) ==
    CASE op.k = "ins" ->
           [t |-> InsertText(t, op.p, op.s), op |-> [op EXCEPT !.off = Idx(t, op.p)]]
      [] op.k = "del" ->
           LET u == DeleteRange(t, op.p, op.q) off == Idx(t, op.p)
           IN [t |-> u,
               op |-> [op EXCEPT !.off = off,
                                 !.gone = IF off = 0 THEN <<>> ELSE Removed(t, off, u)]]
      [] op.k = "rep" -> [t |-> op.s, op |-> [op EXCEPT !.gone = t]]

Reversed(t, op) ==
    CASE op.k = "ins" ->
           IF With("offsets")
           THEN IF op.off = 0 THEN t ELSE Splice(t, op.off, Len(op.s), <<>>)
           ELSE DeleteRange(t, op.p, AddDistance(op.p, Distance(op.s)))
      [] op.k = "del" ->
           IF With("offsets")
           THEN IF op.off = 0 THEN t ELSE Splice(t, op.off, 0, op.gone)
           ELSE InsertText(t, op.p, op.gone)
      [] op.k = "rep" -> op.gone

RECURSIVE RunAll(_, _, _), ReversedAll(_, _)
RunAll(t, ops, done) ==
    IF ops = <<>> THEN [t |-> t, ops |-> done]
    ELSE LET r == RunOn(t, Head(ops)) IN RunAll(r.t, Tail(ops), Append(done, r.op))
ReversedAll(t, ops) ==
    IF ops = <<>> THEN t ELSE ReversedAll(Reversed(t, ops[Len(ops)]), SubSeq(ops, 1, Len(ops) - 1))

---------------------------------------------------------------------------
(* Entries are groups of operations; single operations are groups of one.  *)

Pending == IF group = <<>> THEN <<>> ELSE group[1]

(* Values of prev, next and mark after adding an entry. *)
Added(ops) ==
    [prev |-> Append(prev, ops), next |-> <<>>,
     mark |-> IF With("drop") /\ mark >= Len(prev) + 1 THEN -1 ELSE mark]
Unchanged == [prev |-> prev, next |-> next, mark |-> mark]

Closed == IF Pending = <<>> THEN Unchanged ELSE Added(Pending)

Become(h) == prev' = h.prev /\ next' = h.next /\ mark' = h.mark

Apply(op) ==
    LET r == RunOn(text, op) IN
    /\ text' = r.t
    /\ IF group = <<>> THEN Become(Added(<<r.op>>)) /\ group' = group
       ELSE Become(Unchanged) /\ group' = <<Append(group[1], r.op)>>

Spec0(op) == b' = Predict(b, op).b

Room == Len(prev) + Len(Pending) < MaxSteps

InsertPiece ==
    \E p \in AllPositions(text), s \in Pieces :
      /\ Room /\ Len(text) + Len(s) <= MaxLen
      /\ Apply(Operation("ins", p, p, s))
      /\ b' = Predict([b EXCEPT !.cur = p], [op |-> "insert", s |-> s]).b

DeleteSome ==
    \E p \in AllPositions(text), q \in AllPositions(text) \cup {<<0, 9>>, <<9, 0>>} :
      /\ Room /\ Before(p, q)
      /\ Apply(Operation("del", p, q, <<>>))
      /\ Spec0([op |-> "range", p |-> p, q |-> q])

InsertNowhere ==
    /\ Room
    /\ Apply(Operation("ins", <<9, 9>>, <<9, 9>>, <<97>>))
    /\ b' = Predict([b EXCEPT !.cur = <<9, 9>>], [op |-> "insert", s |-> <<97>>]).b

ReplaceAllOfIt ==
    \E s \in Origins :
      /\ Room /\ s # text
      /\ Apply(Operation("rep", Origin, Origin, s))
      /\ Spec0([op |-> "replace", s |-> s])

UndoLast ==
    LET h == IF With("close") THEN Closed ELSE Unchanged IN
    /\ group' = IF With("close") THEN <<>> ELSE group
    /\ IF h.prev = <<>> THEN Become(h) /\ text' = text
       ELSE LET ops == h.prev[Len(h.prev)] IN
            /\ Become([h EXCEPT !.prev = SubSeq(@, 1, Len(@) - 1), !.next = <<ops>> \o @])
            /\ text' = ReversedAll(text, ops)
    /\ Spec0([op |-> "undo"])

RedoNext ==
    /\ IF next = <<>> \/ (With("hold") /\ Pending # <<>>)
       THEN UNCHANGED <<text, prev, next, mark>>
       ELSE LET r == RunAll(text, next[1], <<>>) IN
            /\ Become([prev |-> Append(prev, r.ops), next |-> Tail(next), mark |-> mark])
            /\ text' = r.t
    /\ UNCHANGED group
    /\ Spec0([op |-> "redo"])

BeginGroup ==
    /\ group' = IF group = <<>> THEN << <<>> >> ELSE group
    /\ UNCHANGED <<text, prev, next, mark>>
    /\ Spec0([op |-> "begin"])

EndGroup ==
    /\ Become(Closed) /\ group' = <<>>
    /\ UNCHANGED text
    /\ Spec0([op |-> "end"])

SaveIt ==
    /\ IF With("split") /\ Pending # <<>>
       THEN Become([Closed EXCEPT !.mark = Len(Closed.prev)]) /\ group' = << <<>> >>
       ELSE Become([Unchanged EXCEPT !.mark = Len(prev)]) /\ group' = group
    /\ UNCHANGED text
    /\ Spec0([op |-> "save", limit |-> -1])

FailToSave ==
    /\ text # <<>>
    /\ Become([Unchanged EXCEPT !.mark = IF With("clear") THEN -1 ELSE @])
    /\ UNCHANGED <<text, group>>
    /\ Spec0([op |-> "save", limit |-> 0])

Next == InsertPiece \/ DeleteSome \/ InsertNowhere \/ ReplaceAllOfIt \/ UndoLast \/ RedoNext
        \/ BeginGroup \/ EndGroup \/ SaveIt \/ FailToSave

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
SameText == text = b.text
SameFlag == ((With("open") /\ Pending # <<>>) \/ Len(prev) # mark) = Modified(b)
(* There's as much to undo and redo. *)
SameExtent == Len(prev) = b.h /\ Len(next) = Len(b.hist) - b.h

(* Where the cursor is doesn't matter. *)
View == <<text, prev, next, group, mark, b.text, b.hist, b.h, b.grp, b.saved>>

Fewer == {<<97>>, <<769>>}
Combining == {<<97>>, <<769>>, <<13>>}
Starting == {<<10, 97>>, <<>>}
AllDecisions == {"offsets", "close", "hold", "open", "split", "drop", "clear"}
WithoutOffsets == AllDecisions \ {"offsets"}
WithoutClose == AllDecisions \ {"close"}
WithoutHold == AllDecisions \ {"hold"}
WithoutOpen == AllDecisions \ {"open"}
WithoutSplit == AllDecisions \ {"split"}
WithoutDrop == AllDecisions \ {"drop"}
WithoutClear == AllDecisions \ {"clear"}
=============================================================================
