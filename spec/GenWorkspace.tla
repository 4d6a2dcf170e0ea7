---------------------------- MODULE GenWorkspace ----------------------------
(***************************************************************************)
(* Workspaces (W01 to W06): every sequence of a few operations on up to a  *)
(* few buffers, some of which are about the same files. As with the models *)
(* of single buffers, one test is printed per transition.                  *)
(***************************************************************************)
EXTENDS Workspace, TLC

CONSTANTS
    MaxBuffers, MaxDepth,
    Present,        \* files that exist at first
    Names,          \* paths that buffers are given
    Table,          \* which syntax definitions there are
    WithEdits, WithFiles, WithSyntaxes

VARIABLES w, past, depth

vars == <<w, past, depth>>

Root == "W"
(* Syntaxes aren't told by content, even if that's "#!/bin/sh".            *)
Content == IF WithSyntaxes THEN <<35, 33, 47, 98, 105, 110, 47, 115, 104, 10>> ELSE <<97, 10>>
Disk == [f \in FileNames |-> IF f \in Present THEN File(Content) ELSE Absent]

Init ==
    /\ w = NewWorkspace(Root, World.tables[Table], Disk)
    /\ past = <<>>
    /\ depth = 0

Emit(op, o) ==
    PrintT(ToJson([setup |-> [root |-> Root, table |-> Table, as |-> 0, cached |-> TRUE],
                   disk |-> Disk,
                   ops |-> Append(past, op), pre |-> Observable(w),
                   exp |-> Observable(o.w), res |-> o.res, cbs |-> o.cbs, tag |-> CurrentTag(w),
                   expdisk |-> o.w.disk, facts |-> FactsOf(op)]))

Do(op) ==
    LET o == WPredict(w, op, 0)
    IN /\ depth < MaxDepth
       /\ Emit(op, o)
       /\ w' = o.w
       /\ past' = Append(past, op)
       /\ depth' = depth + 1

CanAdd == Len(w.bufs) < MaxBuffers

(* How paths are spelled makes no difference, so it's not part of the      *)
(* state, but varied along the way.                                        *)
Spelling == (Len(past) + w.next) % 6

Switch == Do([op |-> "next"]) \/ Do([op |-> "prev"]) \/ Do([op |-> "close"]) \/ Do([op |-> "list"])

(* A cursor on a line that's shorter than the column it aims for. *)
Aiming == <<[op |-> "insert", s |-> <<98, 98, 10, 10, 98, 98>>], [op |-> "goto", p |-> <<0, 2>>], [op |-> "move", dir |-> "down"]>>

AddBuffer ==
    /\ CanAdd
    /\ \/ Do([op |-> "add", prep |-> <<>>, tag |-> w.next])
       \/ WithEdits /\ Do([op |-> "add", prep |-> Aiming, tag |-> w.next])
       \/ \E f \in FileNames : Do([op |-> "add-file", f |-> f, as |-> Spelling, tag |-> w.next])

Unambiguous(f) == ~Resolves(w, f) \/ Cardinality(Showing(w, f)) <= 1 \/ w.cur \in Showing(w, f)

OpenPath ==
    \E f \in FileNames \cup {"lost", "W/sub"} :
        /\ CanAdd \/ (f \in FileNames /\ Showing(w, f) # {})
        /\ Unambiguous(f)
        /\ Do([op |-> "ws-open", f |-> f, as |-> Spelling])

On(op) == HasCurrent(w) /\ Do([op |-> "buf", o |-> op])

EditCurrent ==
    /\ WithEdits
    /\ HasCurrent(w)
    /\ \/ Len(Current(w).hist) < 2 /\ On([op |-> "insert", s |-> <<98>>])
       \/ On([op |-> "undo"])
       \/ On([op |-> "redo"])
       \/ On([op |-> "move", dir |-> "right"])
       \/ On([op |-> "move", dir |-> "down"])
       \/ On([op |-> "begin"])

Repath == \E p \in Names : HasCurrent(w) /\ p # Current(w).path /\ On([op |-> "path", to |-> p])

FileOps ==
    /\ WithFiles
    /\ \/ Current(w).path \in FileNames \cup {"none"} /\ On([op |-> "save", limit |-> -1])
       \/ On([op |-> "reload"])
       \/ \E f \in FileNames : w.disk[f] # Absent /\ Do([op |-> "unlink", f |-> f])
       \/ \E f \in FileNames : w.disk[f] # File(<<99>>) /\ Do([op |-> "write", f |-> f, s |-> <<99>>])

SyntaxOps ==
    /\ WithSyntaxes
    /\ \/ Do([op |-> "resyntax"])
       \/ Do([op |-> "tokens"])
       \/ \E s \in {"", "Ruby"} : On([op |-> "syn", syn |-> s])
       \/ CanAdd /\ Do([op |-> "add", prep |-> <<[op |-> "syn", syn |-> "Ruby"], [op |-> "path", to |-> "W/a.rs"]>>,
                        tag |-> -1])

Next == Switch \/ AddBuffer \/ OpenPath \/ EditCurrent \/ Repath \/ (HasCurrent(w) /\ FileOps) \/ SyntaxOps

Spec == Init /\ [][Next]_vars

View == <<w, depth>>

Selection == SelectionValid(w)
Unique == IdsUnique(w)
Cycles == CyclesReturn(w)
AddClose == AddThenClose(w)
Idempotent == \A f \in FileNames : OpenIdempotent(w, f)
(* Whatever is done to the current buffer, the others stay as they are. *)
Isolated ==
    [][\A i \in 1..Len(w.bufs) :
         (i # w.cur /\ w'.cur = w.cur /\ Len(w'.bufs) = Len(w.bufs)) =>
         [w'.bufs[i].b EXCEPT !.disk = 0] = [w.bufs[i].b EXCEPT !.disk = 0]]_vars
(* Identifiers stay with their buffers, and used ones don't come back. *)
IdsStick ==
    [][LET ids(x) == {x.bufs[i].b.id : i \in 1..Len(x.bufs)} IN
       /\ w'.next >= w.next
       /\ \A id \in ids(w') \ ids(w) : id >= w.next]_vars

NoNames == {}
SomeNames == {"none", "Wx/d.rs", "W"}
Unnamed == World.files[Len(World.files)]
SyntaxNames == {"none", "W/Makefile", "W/b.txt", "W/noext.", "W/odd.rs", "rel.py", Unnamed}
TwoFiles == {"W/a.rs", "out/e.rb"}
OneFile == {"W/a.rs"}
=============================================================================
