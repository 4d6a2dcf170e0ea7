--------------------------- MODULE WorkspaceImpl ---------------------------
(***************************************************************************)
(* How workspaces are implemented: the current buffer is checked out of    *)
(* the list, where it leaves a placeholder, and is checked in before       *)
(* another one takes its place. This is run in lockstep with Workspace,    *)
(* which knows nothing about that, and has to agree with it throughout.    *)
(*                                                                         *)
(* Design is a set of decisions, all of which are needed (the "Without"    *)
(* configurations leave one of them out each, and have to fail):           *)
(*                                                                         *)
(*   "checkin"      selecting a buffer checks the current one in           *)
(*   "placeholder"  what's left in the list is an empty buffer, as opposed *)
(*                  to a copy that goes out of date                        *)
(*   "current"      opening looks at the current buffer's path, too        *)
(*   "discard"      closing discards the current buffer before selecting   *)
(*   "vacate"       closing the last one forgets its index                 *)
(*   "behind"       buffers are added behind the current one, whose index  *)
(*                  stays what it is until it's been checked in            *)
(*   "shown"        listings have the current buffer's path in place of    *)
(*                  the placeholder's                                      *)
(*   "counter"      identifiers are counted, as opposed to being the       *)
(*                  number of buffers                                      *)
(***************************************************************************)
EXTENDS Workspace, TLC

CONSTANTS Design, MaxBuffers, MaxEdits, MaxDepth

VARIABLES
    w,      \* the workspace, as specified
    list,   \* buffers
    cur,    \* the current one, or <<>>
    idx,    \* its index, or 0
    next,   \* the next identifier
    depth

vars == <<w, list, cur, idx, next, depth>>

With(decision) == decision \in Design

Disk == [f \in FileNames |-> File(<<97>>)]

Init ==
    /\ w = NewWorkspace("W", World.tables["default"], Disk)
    /\ list = <<>> /\ cur = <<>> /\ idx = 0 /\ next = 0 /\ depth = 0

(* Files are the same for everyone. *)
Plain(b) == [b EXCEPT !.disk = <<>>]
Placeholder == Plain(NewBuffer(<<>>))
Put(s, i, b) == IF i \in 1..Len(s) THEN [s EXCEPT ![i] = b] ELSE s

---------------------------------------------------------------------------
(* What happens to <<list, cur, idx, next>>. *)

State == [list |-> list, cur |-> cur, idx |-> idx, next |-> next]

Select(x, i) ==
    LET in == IF With("checkin") /\ x.cur # <<>> THEN Put(x.list, x.idx, x.cur[1]) ELSE x.list
    IN IF i \in 1..Len(in)
       THEN [x EXCEPT !.list = IF With("placeholder") THEN Put(in, i, Placeholder) ELSE in,
                      !.cur = <<in[i]>>, !.idx = i]
       ELSE [x EXCEPT !.list = in]

AddTo(x, b) ==
    LET id == IF With("counter") THEN x.next ELSE Len(x.list)
        named == [b EXCEPT !.id = id, !.syn = IF @ = "" THEN SyntaxFor(w, b.path) ELSE @]
        at == IF With("behind") \/ x.idx = 0 THEN x.idx ELSE x.idx - 1
    IN Select([x EXCEPT !.list = InsertEntry(@, at, Plain(named)), !.next = @ + 1], at + 1)

CloseIn(x) ==
    IF x.idx = 0 THEN x
    ELSE LET left == RemoveEntry(x.list, x.idx)
             y == [x EXCEPT !.list = left, !.cur = IF With("discard") THEN <<>> ELSE @]
         IN IF left = <<>> THEN [y EXCEPT !.idx = IF With("vacate") THEN 0 ELSE @, !.cur = <<>>]
            ELSE Select(y, IF x.idx = 1 THEN 1 ELSE x.idx - 1)

NextIn(x) == IF x.idx = 0 THEN x ELSE Select(x, IF x.idx = Len(x.list) THEN 1 ELSE x.idx + 1)
PreviousIn(x) == IF x.idx = 0 THEN x ELSE Select(x, IF x.idx = 1 THEN Len(x.list) ELSE x.idx - 1)

OpenIn(x, f) ==
    LET found == {i \in 1..Len(x.list) : x.list[i].path = f}
    IN IF With("current") /\ x.cur # <<>> /\ x.cur[1].path = f THEN x
       ELSE IF found # {} THEN Select(x, CHOOSE i \in found : \A j \in found : i <= j)
       ELSE AddTo(x, OpenedBuffer(w.disk, f))

OnCurrentIn(x, op) ==
    IF x.cur = <<>> THEN x
    ELSE [x EXCEPT !.cur = <<Plain(OnBuffer([x.cur[1] EXCEPT !.disk = w.disk], op).b)>>]

---------------------------------------------------------------------------
Become(x, op) ==
    /\ depth < MaxDepth /\ depth' = depth + 1
    /\ list' = x.list /\ cur' = x.cur /\ idx' = x.idx /\ next' = x.next
    /\ w' = WPredict(w, op, x.idx).w

Room == Len(w.bufs) < MaxBuffers

(* Where several buffers could be selected, it's the first one.            *)
Next ==
    \/ Become(NextIn(State), [op |-> "next"])
    \/ Become(PreviousIn(State), [op |-> "prev"])
    \/ Become(CloseIn(State), [op |-> "close"])
    \/ Room /\ Become(AddTo(State, NewBuffer(w.disk)), [op |-> "add", prep |-> <<>>, tag |-> -1])
    \/ \E f \in FileNames :
         \/ Room /\ Become(AddTo(State, OpenedBuffer(w.disk, f)), [op |-> "add-file", f |-> f, tag |-> -1])
         \/ (Room \/ Showing(w, f) # {}) /\ Become(OpenIn(State, f), [op |-> "ws-open", f |-> f])
    \/ HasCurrent(w) /\
         \E op \in {[op |-> "insert", s |-> <<98>>], [op |-> "undo"]}
                   \cup {[op |-> "path", to |-> p] : p \in FileNames \cup {"none"}} :
            /\ op.op = "insert" => Len(Current(w).hist) < MaxEdits
            /\ Become(OnCurrentIn(State, op), [op |-> "buf", o |-> op])

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
SameSelection == idx = w.cur /\ (cur = <<>> <=> w.cur = 0)
SameBuffers ==
    /\ Len(list) = Len(w.bufs)
    /\ \A i \in 1..Len(list) : i # idx => list[i] = Plain(w.bufs[i].b)
    /\ cur # <<>> => cur[1] = Plain(w.bufs[w.cur].b)
SameListing ==
    [i \in 1..Len(list) |->
        Listed("W", IF With("shown") /\ i = idx THEN cur[1].path ELSE list[i].path)] = Listing(w)
SameCounter == next = w.next
(* Exactly the current one's place is taken by a placeholder. *)
Checked == \A i \in 1..Len(list) : (i = idx) = (list[i].id = NewBuffer(<<>>).id)

View == <<w, list, cur, idx, next, depth>>

OneFile == {"W/a.rs"}
AllDecisions == {"checkin", "placeholder", "current", "discard", "vacate", "behind", "shown", "counter"}
WithoutCheckin == AllDecisions \ {"checkin"}
WithoutPlaceholder == AllDecisions \ {"placeholder"}
WithoutCurrent == AllDecisions \ {"current"}
WithoutDiscard == AllDecisions \ {"discard"}
WithoutVacate == AllDecisions \ {"vacate"}
WithoutBehind == AllDecisions \ {"behind"}
WithoutShown == AllDecisions \ {"shown"}
WithoutCounter == AllDecisions \ {"counter"}
=============================================================================
