------------------------------ MODULE Buffer ------------------------------
(***************************************************************************)
(* The behaviour of a text buffer: a document with a cursor, a linear undo *)
(* history with grouping, change notifications, and a backing file.        *)
(*                                                                         *)
(* A buffer is a record, and what an operation does to it is given by      *)
(* Predict(b, op): the resulting buffer, the notifications sent along the  *)
(* way, the value returned, and the names of the facts that each of these  *)
(* establishes. The same operator drives exhaustive model checking and     *)
(* test generation (modules that extend Gen), trace validation             *)
(* (TraceBuffer), and workspaces (Workspace), so there's a single source   *)
(* of truth.                                                               *)
(*                                                                         *)
(* The history is specified by what it has to achieve, rather than how:    *)
(* it records the content before and after every step. The implementation  *)
(* stores inverse operations and a mark instead; HistoryImpl models that   *)
(* and is checked to refine this.                                          *)
(*                                                                         *)
(*   text    the document (code points)                                    *)
(*   cur     cursor position; nothing forces it to exist in the document   *)
(*           after edits, undo, and redo                                   *)
(*   sticky  the offset that vertical movement aims for                    *)
(*   hist    entries, each a non-empty sequence of steps, oldest first     *)
(*   h       number of entries currently applied; the others can be redone *)
(*   grp     <<>> without an open group, <<steps>> with one                *)
(*   saved   number of applied entries at which the content is known to    *)
(*           match what was last read or written; -1 if there's none       *)
(*   synced  the content last read from or written to a file (ghost)       *)
(*   path    where the buffer's path points to; see Files below            *)
(*   disk    contents of the regular files that paths can point to         *)
(*   id      identifier, and                                               *)
(*   syn     name of the syntax definition; both are only set by owners    *)
(***************************************************************************)
EXTENDS Values

NoMark == -1

(* A path is unset ("none"), one of some files, a file in a directory that *)
(* doesn't exist ("lost"), a directory ("dir"), or a device that can be    *)
(* opened but not written to ("full"; it's endless when read, so nothing   *)
(* ever does).                                                             *)
CONSTANT FileNames

(* Files hold text, nothing (Absent), or something that isn't UTF-8.       *)
(* After a write that failed half way, there's no telling (Unknown).       *)
Absent == [k |-> "absent", t |-> <<>>]
Binary == [k |-> "binary", t |-> <<>>]
Unknown == [k |-> "unknown", t |-> <<>>]
File(t) == [k |-> "text", t |-> t]

NewBuffer(files) ==
    [text |-> <<>>, cur |-> Origin, sticky |-> 0, hist |-> <<>>, h |-> 0, grp |-> <<>>,
     saved |-> NoMark, synced |-> <<>>, path |-> "none", disk |-> files, id |-> -1, syn |-> ""]

(* A buffer that was read from file f. *)
OpenedBuffer(files, f) ==
    [NewBuffer(files) EXCEPT !.text = files[f].t, !.saved = 0, !.synced = files[f].t, !.path = f]

---------------------------------------------------------------------------
(* Queries *)

Grouping(b) == b.grp # <<>>
OpenSteps(b) == IF Grouping(b) THEN b.grp[1] ELSE <<>>

Modified(b) == b.path = "none" \/ OpenSteps(b) # <<>> \/ b.h # b.saved

---------------------------------------------------------------------------
(* History *)

Step(kind, pos, pre, post) == [k |-> kind, pos |-> pos, pre |-> pre, post |-> post]

(* An entry supersedes those that could have been redone, including, if it *)
(* was among them, the one known to match the file.                        *)
PushEntry(b, steps) ==
    [b EXCEPT !.hist = Append(SubSeq(b.hist, 1, b.h), steps),
              !.h = b.h + 1,
              !.saved = IF b.saved > b.h THEN NoMark ELSE b.saved]

Record(b, step) ==
    IF Grouping(b) THEN [b EXCEPT !.grp = <<Append(b.grp[1], step)>>]
    ELSE PushEntry(b, <<step>>)

OpenGroup(b) == IF Grouping(b) THEN b ELSE [b EXCEPT !.grp = << <<>> >>]

CloseGroup(b) ==
    IF OpenSteps(b) = <<>> THEN [b EXCEPT !.grp = <<>>]
    ELSE PushEntry([b EXCEPT !.grp = <<>>], OpenSteps(b))

(* Content and file are in sync; an open group is split at this point.     *)
MarkSynced(b) ==
    LET c == IF OpenSteps(b) = <<>> THEN b ELSE OpenGroup(CloseGroup(b))
    IN [c EXCEPT !.saved = c.h, !.synced = c.text]

(* Where whole-content replacement leaves the cursor. *)
Retain(t, cur) ==
    IF InBounds(t, cur) THEN cur
    ELSE IF InBounds(t, <<cur[1], 0>>) THEN <<cur[1], 0>> ELSE Origin

RECURSIVE CursorAfterUndo(_, _, _), CursorAfterRedo(_, _, _)
CursorAfterUndo(steps, i, c) ==
    IF i = 0 THEN c
    ELSE LET c1 == IF steps[i].k = "rep"
                   THEN LET p == Retain(steps[i].pre, c.cur) IN [cur |-> p, sticky |-> p[2]]
                   ELSE c
         IN CursorAfterUndo(steps, i - 1, c1)
CursorAfterRedo(steps, i, c) ==
    IF i > Len(steps) THEN c
    ELSE LET c1 == IF steps[i].k = "rep"
                   THEN LET p == Retain(steps[i].post, c.cur) IN [cur |-> p, sticky |-> p[2]]
                   ELSE c
         IN CursorAfterRedo(steps, i + 1, c1)

HasReplacement(steps) == \E i \in 1..Len(steps) : steps[i].k = "rep"

---------------------------------------------------------------------------
(* Notifications: one per step, with the position at which it applies. It  *)
(* must be sent if the step changes the content, and may be (with whatever *)
(* position) otherwise.                                                    *)

Notice(step) == [p |-> step.pos, must |-> step.pre # step.post]
Forward(steps) == [i \in 1..Len(steps) |-> Notice(steps[i])]
Backward(steps) == [i \in 1..Len(steps) |-> Notice(steps[Len(steps) + 1 - i])]

RECURSIVE Explains(_, _)
(* Whether the observed positions are those predicted. *)
Explains(notices, observed) ==
    IF notices = <<>> THEN observed = <<>>
    ELSE \/ /\ observed # <<>>
            /\ Head(notices).must => Head(observed) = Head(notices).p
            /\ Explains(Tail(notices), Tail(observed))
         \/ ~Head(notices).must /\ Explains(Tail(notices), observed)

---------------------------------------------------------------------------
(* Cursor movement *)

At(b, p) == [b EXCEPT !.cur = p, !.sticky = p[2]]
MoveTo(b, p) == IF InBounds(b.text, p) THEN At(b, p) ELSE b

(* Offset of the end of line l, as long as there's anything on that line.  *)
EndOffset(t, l) == IF l < SplitLineCount(t) THEN LastOffset(t, l) ELSE 0

(* Aims for the sticky offset, settles for the end of the line, and keeps  *)
(* aiming for the same offset either way.                                  *)
MoveToLine(b, l) ==
    IF InBounds(b.text, <<l, b.sticky>>) THEN At(b, <<l, b.sticky>>)
    ELSE LET p == <<l, EndOffset(b.text, l)>> IN
         IF InBounds(b.text, p) THEN [b EXCEPT !.cur = p] ELSE b

Move(b, dir) ==
    LET l == b.cur[1] o == b.cur[2] IN
    CASE dir = "left"  -> IF o = 0 THEN b ELSE MoveTo(b, <<l, o - 1>>)
      [] dir = "right" -> MoveTo(b, <<l, o + 1>>)
      [] dir = "sol"   -> MoveTo(b, <<l, 0>>)
      [] dir = "eol"   -> IF l < SplitLineCount(b.text)
                          THEN MoveTo(b, <<l, LastOffset(b.text, l)>>) ELSE b
      [] dir = "up"    -> IF l = 0 THEN b ELSE MoveToLine(b, l - 1)
      [] dir = "down"  -> MoveToLine(b, l + 1)
      [] dir = "first" -> MoveTo(b, <<0, Least(b.sticky, LastOffset(b.text, 0))>>)
      [] dir = "last"  -> LET n == LineCount(b.text) - 1
                          IN MoveTo(b, <<n, Least(b.sticky, LastOffset(b.text, n))>>)

Directions == {"left", "right", "sol", "eol", "up", "down", "first", "last"}

---------------------------------------------------------------------------
(* Operations *)

(* What an operation leads to: the buffer, notifications, returned value,  *)
(* and the facts established by the content, cursor, notifications, and    *)
(* returned value, in this order.                                          *)
Outcome(b, notices, res, facts) == [b |-> b, cbs |-> notices, res |-> res, facts |-> facts]

(* Nothing but a returned value. *)
Query(b, res, fact) == Outcome(b, <<>>, res, <<fact, "cursor.query", "notify.quiet", fact>>)

Edit(b, step, fact) ==
    Outcome(Record([b EXCEPT !.text = step.post], step), <<Notice(step)>>, "",
            <<fact, "cursor.edit", "notify.edit", "none">>)

InsertFact(t, p) == IF InBounds(t, p) THEN "insert" ELSE "insert.oob"

Insert(b, s) ==
    Edit(b, Step("ins", b.cur, b.text, InsertText(b.text, b.cur, s)),
         InsertFact(b.text, b.cur))

DeleteFact(t, a, z) ==
    IF ~InBounds(t, MinPos(a, z)) THEN "delete.oob"
    ELSE IF ~InBounds(t, MaxPos(a, z)) THEN "delete.clamp" ELSE "delete"

DeleteSpan(b, a, z) ==
    Edit(b, Step("del", MinPos(a, z), b.text, DeleteRange(b.text, a, z)), DeleteFact(b.text, a, z))

(* Deletes what follows the cursor: a character, or a line break. *)
Delete(b) ==
    LET right == <<b.cur[1], b.cur[2] + 1>>
    IN DeleteSpan(b, b.cur, IF InBounds(b.text, right) THEN right ELSE <<b.cur[1] + 1, 0>>)

ReplaceWith(b, s) ==
    IF s = b.text THEN b
    ELSE LET p == Retain(s, b.cur)
         IN Record([b EXCEPT !.text = s, !.cur = p, !.sticky = p[2]],
                   Step("rep", Origin, b.text, s))

Replace(b, s) ==
    Outcome(ReplaceWith(b, s),
            IF s = b.text THEN <<>> ELSE <<[p |-> Origin, must |-> TRUE]>>,
            "", <<"replace", "cursor.replace", "notify.replace", "none">>)

UndoFact(steps) == IF Len(steps) > 1 THEN "undo.group" ELSE "undo"
RedoFact(steps) == IF Len(steps) > 1 THEN "redo.group" ELSE "redo"

Undo(b) ==
    LET c == CloseGroup(b) IN
    IF c.h = 0
    THEN Outcome(c, <<>>, "", <<"undo.none", "cursor.undo", "notify.undo", "none">>)
    ELSE LET steps == c.hist[c.h]
             q == CursorAfterUndo(steps, Len(steps), [cur |-> c.cur, sticky |-> c.sticky])
         IN Outcome([c EXCEPT !.text = steps[1].pre, !.h = c.h - 1,
                              !.cur = q.cur, !.sticky = q.sticky],
                    Backward(steps), "",
                    <<UndoFact(steps),
                      IF HasReplacement(steps) THEN "cursor.replace" ELSE "cursor.undo",
                      "notify.undo", "none">>)

Redo(b) ==
    IF OpenSteps(b) # <<>> \/ b.h = Len(b.hist)
    THEN Outcome(b, <<>>, "", <<"redo.none", "cursor.undo", "notify.undo", "none">>)
    ELSE LET steps == b.hist[b.h + 1]
             q == CursorAfterRedo(steps, 1, [cur |-> b.cur, sticky |-> b.sticky])
         IN Outcome([b EXCEPT !.text = steps[Len(steps)].post, !.h = b.h + 1,
                              !.cur = q.cur, !.sticky = q.sticky],
                    Forward(steps), "",
                    <<RedoFact(steps),
                      IF HasReplacement(steps) THEN "cursor.replace" ELSE "cursor.undo",
                      "notify.undo", "none">>)

Quiet(b, facts) == Outcome(b, <<>>, "", facts)

(* Saving to a file that can't be opened has no effect. If it can, but     *)
(* then can't be written to, the file is left truncated, so there's no     *)
(* point in the history at which the content is known to match it. The     *)
(* limit, if not negative, is that on the size of files.                   *)
SaveFailed(b) == Outcome(b, <<>>, "err", <<"save.fail", "save.fail", "notify.quiet", "save.fail">>)

Save(b, limit) ==
    CASE b.path \in FileNames /\ (limit < 0 \/ ByteLen(b.text) <= limit) ->
           Outcome([MarkSynced(b) EXCEPT !.disk = [b.disk EXCEPT ![b.path] = File(b.text)]],
                   <<>>, "ok", <<"save.text", "cursor.save", "notify.quiet", "save">>)
      [] b.path \in FileNames /\ limit >= 0 /\ ByteLen(b.text) > limit ->
           SaveFailed([b EXCEPT !.saved = NoMark, !.disk = [b.disk EXCEPT ![b.path] = Unknown]])
      [] b.path = "full" /\ b.text # <<>> -> SaveFailed([b EXCEPT !.saved = NoMark])
      [] b.path = "full" /\ b.text = <<>> -> \* there's nothing to write
           Outcome(MarkSynced(b), <<>>, "ok",
                   <<"save.text", "cursor.save", "notify.quiet", "save">>)
      [] OTHER -> SaveFailed(b)

CanRead(b, p) == p \in FileNames /\ b.disk[p].k = "text"

ReadFailed(b, fact) == Outcome(b, <<>>, "err", <<fact, fact, "notify.quiet", fact>>)

Reload(b) ==
    IF CanRead(b, b.path)
    THEN LET s == b.disk[b.path].t
         IN Outcome(MarkSynced(ReplaceWith(b, s)),
                    IF s = b.text THEN <<>> ELSE <<[p |-> Origin, must |-> TRUE]>>,
                    "ok", <<"reload", "cursor.replace", "notify.replace", "reload">>)
    ELSE ReadFailed(b, "reload.fail")

(* Opening a file as a new buffer, in place of this one if it succeeds. *)
Open(b, f) ==
    IF CanRead(b, f)
    THEN Outcome(OpenedBuffer(b.disk, f), <<>>, "ok", <<"open", "open", "open", "open">>)
    ELSE ReadFailed(b, "open.fail")

(* Something else writes to (or removes) a file. *)
External(b, f, content) ==
    Quiet([b EXCEPT !.disk = [b.disk EXCEPT ![f] = content]],
          <<"none", "none", "none", "none">>)

(* The underlying text buffer can also be used on its own: it has neither  *)
(* a cursor, nor history.                                                  *)
Bare(b, text, fact) == Outcome([b EXCEPT !.text = text], <<>>, "", <<fact, "none", "none", "none">>)

MoveFact(dir) == IF dir \in {"up", "down", "first", "last"} THEN "move.vertical" ELSE "move"

Predict(b, op) ==
    CASE op.op = "insert"  -> Insert(b, op.s)
      [] op.op = "delete"  -> Delete(b)
      [] op.op = "range"   -> DeleteSpan(b, op.p, op.q)
      [] op.op = "replace" -> Replace(b, op.s)
      [] op.op = "undo"    -> Undo(b)
      [] op.op = "redo"    -> Redo(b)
      [] op.op = "begin"   -> Quiet(OpenGroup(b), <<"group", "cursor.group", "notify.quiet", "none">>)
      [] op.op = "end"     -> Quiet(CloseGroup(b), <<"group", "cursor.group", "notify.quiet", "none">>)
      [] op.op = "save"    -> Save(b, op.limit)
      [] op.op = "open"    -> Open(b, op.f)
      [] op.op = "reload"  -> Reload(b)
      [] op.op = "path"    -> Quiet([b EXCEPT !.path = op.to], <<"none", "none", "none", "none">>)
      [] op.op = "meta"    -> Quiet([b EXCEPT !.id = op.id, !.syn = op.syn],
                                    <<"none", "none", "none", "none">>)
      [] op.op = "poke"    -> Quiet([b EXCEPT !.cur = op.p], <<"none", "none", "none", "none">>)
      [] op.op = "write"   -> External(b, op.f, File(op.s))
      [] op.op = "corrupt" -> External(b, op.f, Binary)
      [] op.op = "unlink"  -> External(b, op.f, Absent)
      [] op.op = "move"    -> Outcome(Move(b, op.dir), <<>>, "",
                                      <<MoveFact(op.dir), MoveFact(op.dir), "notify.quiet", "none">>)
      [] op.op = "goto"    -> Outcome(MoveTo(b, op.p), <<>>, InBounds(b.text, op.p),
                                      <<"goto", "goto", "notify.quiet", "goto">>)
      [] op.op = "inb"     -> Query(b, InBounds(b.text, op.p), "bounds")
      [] op.op = "read"    -> Query(b, ReadRange(b.text, op.p, op.q), "read")
      [] op.op = "search"  -> Query(b, Search(b.text, op.s), "search")
      [] op.op = "gap-new"    -> Bare(b, op.s, "open")
      [] op.op = "gap-insert" -> Bare(b, InsertText(b.text, op.p, op.s), InsertFact(b.text, op.p))
      [] op.op = "gap-delete" -> Bare(b, DeleteRange(b.text, op.p, op.q), DeleteFact(b.text, op.p, op.q))
      [] op.op = "gap-inb"    -> Query(b, InBounds(b.text, op.p), "bounds")
      [] op.op = "gap-read"   -> Query(b, ReadRange(b.text, op.p, op.q), "read")
      [] op.op = "lines"   -> Query(b, LineCount(b.text), "lines")
      [] op.op \in ValueOps -> Outcome(b, <<>>, Value(op), <<"none", "none", "none", ValueFact(op)>>)

---------------------------------------------------------------------------
(* Properties of the design, checked by modules that extend Gen. *)

Edits == {"insert", "delete", "range", "replace"}

EntriesChain(b) ==
    \* Every entry starts from what its predecessor led to, and the
    \* document is what the entries that are applied lead to.
    /\ \A i \in 1..Len(b.hist) :
         /\ b.hist[i] # <<>>
         /\ \A k \in 1..(Len(b.hist[i]) - 1) : b.hist[i][k].post = b.hist[i][k + 1].pre
         /\ i > 1 => b.hist[i][1].pre = b.hist[i - 1][Len(b.hist[i - 1])].post

AppliedText(b) ==
    IF OpenSteps(b) # <<>> THEN OpenSteps(b)[Len(OpenSteps(b))].post
    ELSE IF b.h > 0 THEN b.hist[b.h][Len(b.hist[b.h])].post
    ELSE IF Len(b.hist) > 0 THEN b.hist[1][1].pre
    ELSE b.text

HistoryConsistent(b) == EntriesChain(b) /\ b.text = AppliedText(b)

(* The flag never hides content that hasn't been saved. *)
FlagSound(b) == ~Modified(b) => b.text = b.synced

(* Undo and redo are inverse to each other. *)
UndoRedoInverse(b) ==
    LET c == CloseGroup(b) IN
    c.h > 0 => /\ Redo(Undo(b).b).b.text = b.text
               /\ Redo(Undo(b).b).b.h = c.h
               /\ Modified(Redo(Undo(b).b).b) = Modified(c)

RECURSIVE Unwind(_)
Unwind(b) == IF CloseGroup(b).h = 0 THEN b ELSE Unwind(Undo(b).b)

(* Movement keeps a cursor that's in the document within it. *)
MovementContained(b) ==
    InBounds(b.text, b.cur) => \A d \in Directions : InBounds(b.text, Move(b, d).cur)

=============================================================================
