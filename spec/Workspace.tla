----------------------------- MODULE Workspace -----------------------------
(***************************************************************************)
(* The behaviour of a workspace: a list of buffers, each of them as        *)
(* specified by Buffer, one of which is current, along with the files and  *)
(* syntax definitions they refer to.                                       *)
(*                                                                         *)
(*   bufs   entries [b, tag]: the buffer, and what its notifications are   *)
(*          tagged with (-1 if it has no callback)                         *)
(*   cur    the current one's index; 0 if (and only if) there are none     *)
(*   next   the identifier given to the next buffer (what they are makes   *)
(*          no difference, so they're numbered as they're given out)       *)
(*   root   name of the workspace's directory                              *)
(*   table  syntax definitions by extension or file name                   *)
(*   disk   contents of files; replaces those of the individual buffers    *)
(*                                                                         *)
(* Paths are referred to by name. What their components are is given by    *)
(* World, so that listings, extensions, and file names can be specified;   *)
(* files have one name each, no matter how many ways there are to spell    *)
(* their path. World also has the tables of syntax definitions, which are  *)
(* taken from the library that defines them rather than from the code that *)
(* looks them up.                                                          *)
(***************************************************************************)
EXTENDS Buffer, Json

World == JsonDeserialize("world.json")
WorldFiles == {World.files[i] : i \in 1..Len(World.files)}
Folders == {"W", "W/sub", "Wx"}

Components(name) == World.paths[name].comps
Absolute(name) == World.paths[name].abs

NewWorkspace(root, table, files) ==
    [bufs |-> <<>>, cur |-> 0, next |-> 0, root |-> root, table |-> table, disk |-> files]

---------------------------------------------------------------------------
(* Paths, as sequences of components *)

Within(root, name) ==
    /\ Absolute(name) = Absolute(root)
    /\ Len(Components(name)) >= Len(Components(root))
    /\ \A i \in 1..Len(Components(root)) : Components(name)[i] = Components(root)[i]

(* How a buffer's path is presented: <<>> if it doesn't have one. *)
Listed(root, name) ==
    IF name = "none" THEN <<>>
    ELSE IF Within(root, name)
    THEN << [abs |-> FALSE,
             comps |-> SubSeq(Components(name), Len(Components(root)) + 1, Len(Components(name)))] >>
    ELSE << [abs |-> Absolute(name), comps |-> Components(name)] >>

Dot == 46
LastDot(n) == LET ds == {i \in 1..Len(n) : n[i] = Dot}
              IN IF ds = {} THEN 0 ELSE CHOOSE i \in ds : \A j \in ds : j <= i

(* What follows the last dot, unless that's the one a name starts with. *)
Extension(n) == IF LastDot(n) <= 1 THEN <<>> ELSE SubSeq(n, LastDot(n) + 1, Len(n))

FileName(name) == LET cs == Components(name) IN cs[Len(cs)]

(* What a buffer's file is called, <<>> if that's nothing. Those that      *)
(* aren't UTF-8 (in place of which there are replacement characters) don't *)
(* have a name that can be told.                                           *)
Replacement == 65533
ToldName(name) ==
    IF name = "none" \/ (\E i \in 1..Len(FileName(name)) : FileName(name)[i] = Replacement) THEN <<>>
    ELSE <<FileName(name)>>
ToldExtension(name) ==
    IF name = "none" \/ Extension(FileName(name)) = <<>> THEN <<>> ELSE <<Extension(FileName(name))>>

---------------------------------------------------------------------------
(* Syntax definitions *)

PlainText == "Plain Text"

(* Tables are sequences of [key, syn]. *)
Lookup(table, key) ==
    LET found == SelectSeq(table, LAMBDA entry : entry.key = key)
    IN IF found = <<>> THEN PlainText ELSE found[1].syn

SyntaxFor(w, name) ==
    IF name = "none" THEN PlainText
    ELSE LET n == ToldName(name) e == ToldExtension(name)
         IN IF e # <<>> THEN Lookup(w.table, e[1])
            ELSE IF n # <<>> THEN Lookup(w.table, n[1])
            ELSE PlainText

---------------------------------------------------------------------------
(* Buffers in a workspace *)

HasCurrent(w) == w.cur # 0
Current(w) == [w.bufs[w.cur].b EXCEPT !.disk = w.disk]
CurrentTag(w) == IF HasCurrent(w) THEN w.bufs[w.cur].tag ELSE -1

InsertEntry(s, i, e) == SubSeq(s, 1, i) \o <<e>> \o SubSeq(s, i + 1, Len(s))
RemoveEntry(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Add(w, b, tag) ==
    LET named == [b EXCEPT !.id = w.next, !.syn = IF @ = "" THEN SyntaxFor(w, b.path) ELSE @]
    IN [w EXCEPT !.bufs = InsertEntry(@, w.cur, [b |-> named, tag |-> tag]),
                 !.cur = @ + 1, !.next = @ + 1]

Close(w) ==
    IF ~HasCurrent(w) THEN w
    ELSE LET left == RemoveEntry(w.bufs, w.cur)
         IN [w EXCEPT !.bufs = left,
                      !.cur = IF left = <<>> THEN 0 ELSE IF @ = 1 THEN 1 ELSE @ - 1]

NextBuffer(w) == IF ~HasCurrent(w) THEN w ELSE [w EXCEPT !.cur = IF @ = Len(w.bufs) THEN 1 ELSE @ + 1]
PreviousBuffer(w) == IF ~HasCurrent(w) THEN w ELSE [w EXCEPT !.cur = IF @ = 1 THEN Len(w.bufs) ELSE @ - 1]

(* Indices of buffers whose path is the given file. *)
Showing(w, f) == {i \in 1..Len(w.bufs) : w.bufs[i].b.path = f}

(* Paths of files that don't exist can't be resolved, so that buffers      *)
(* aren't found by them.                                                   *)
Resolves(w, f) == f \in Folders \/ (f \in FileNames /\ w.disk[f].k # "absent")

(* If there are several, of which the current one is none, any will do.    *)
OpenFile(w, f, preferred) ==
    IF Resolves(w, f) /\ Showing(w, f) # {}
    THEN [w |-> IF w.cur \in Showing(w, f) THEN w
                ELSE IF preferred \in Showing(w, f) THEN [w EXCEPT !.cur = preferred]
                ELSE [w EXCEPT !.cur = CHOOSE i \in Showing(w, f) : \A j \in Showing(w, f) : i <= j],
          res |-> "ok"]
    ELSE IF f \in FileNames /\ w.disk[f].k = "text"
    THEN [w |-> Add(w, OpenedBuffer(w.disk, f), -1), res |-> "ok"]
    ELSE [w |-> w, res |-> "err"]

(* Syntax definitions can be set directly, too. *)
OnBuffer(b, op) ==
    IF op.op = "syn" THEN Quiet([b EXCEPT !.syn = op.syn], <<"none", "none", "none", "none">>)
    ELSE Predict(b, op)

(* The result of a series of operations on a buffer that's not part of any *)
(* workspace (yet).                                                        *)
Prepared(w, ops) ==
    FoldLeft(LAMBDA b, op : OnBuffer(b, op).b, NewBuffer(w.disk), ops)

---------------------------------------------------------------------------
(* Operations: the resulting workspace, returned value, and notifications, *)
(* all of which carry the tag of the buffer that was current.              *)

Done(w, res) == [w |-> w, res |-> res, cbs |-> <<>>]

OnCurrent(w, op) ==
    LET o == OnBuffer(Current(w), op)
    IN [w |-> [w EXCEPT !.bufs[w.cur].b = o.b, !.disk = o.b.disk],
        res |-> o.res,
        cbs |-> IF CurrentTag(w) = -1 THEN <<>> ELSE o.cbs]

(* Given the index that was observed, which only matters where there's a   *)
(* choice.                                                                 *)
WPredict(w, op, observed) ==
    CASE op.op = "next"  -> Done(NextBuffer(w), "")
      [] op.op = "prev"  -> Done(PreviousBuffer(w), "")
      [] op.op = "close" -> Done(Close(w), "")
      [] op.op = "list"  -> Done(w, "")
      [] op.op = "add"   -> LET b == Prepared(w, op.prep)
                            IN Done(Add([w EXCEPT !.disk = b.disk], b, op.tag), "")
      [] op.op = "add-file" ->
           IF op.f \in FileNames /\ w.disk[op.f].k = "text"
           THEN Done(Add(w, OpenedBuffer(w.disk, op.f), op.tag), "ok") ELSE Done(w, "err")
      [] op.op = "ws-open" -> LET o == OpenFile(w, op.f, observed) IN Done(o.w, o.res)
      [] op.op = "listen"  -> Done(IF HasCurrent(w) THEN [w EXCEPT !.bufs[w.cur].tag = op.tag] ELSE w, "")
      [] op.op = "resyntax" ->
           IF HasCurrent(w)
           THEN Done([w EXCEPT !.bufs[w.cur].b.syn = SyntaxFor(w, w.bufs[w.cur].b.path)], "ok")
           ELSE Done(w, "EmptyWorkspace")
      [] op.op = "tokens" ->
           Done(w, IF ~HasCurrent(w) THEN "EmptyWorkspace"
                   ELSE IF Current(w).syn = "" THEN "MissingSyntax" ELSE "ok")
      [] op.op = "ws-new"  -> \* another one
           Done(w, IF op.root \in Folders /\ op.table # "bad" THEN "ok" ELSE "err")
      [] op.op = "buf"     -> OnCurrent(w, op.o)
      [] op.op = "write"   -> Done([w EXCEPT !.disk = [@ EXCEPT ![op.f] = File(op.s)]], "")
      [] op.op = "corrupt" -> Done([w EXCEPT !.disk = [@ EXCEPT ![op.f] = Binary]], "")
      [] op.op = "unlink"  -> Done([w EXCEPT !.disk = [@ EXCEPT ![op.f] = Absent]], "")

(* What can be observed. *)
Listing(w) == [i \in 1..Len(w.bufs) |-> Listed(w.root, w.bufs[i].b.path)]

Observable(w) ==
    LET b == IF HasCurrent(w) THEN Current(w) ELSE NewBuffer(w.disk)
    IN [has |-> HasCurrent(w), idx |-> w.cur - 1, list |-> Listing(w),
        cpath |-> Listed(w.root, b.path),
        t |-> b.text, cur |-> b.cur, mod |-> Modified(b), id |-> b.id, syn |-> b.syn, path |-> b.path,
        fname |-> ToldName(b.path), fext |-> ToldExtension(b.path),
        root |-> w.root]

(* The facts that each observation is about. *)
OpKind(op) ==
    CASE op.op \in {"next", "prev", "close", "list", "listen", "write", "corrupt", "unlink"} -> "order"
      [] op.op \in {"add", "add-file"} -> "order"
      [] op.op = "ws-open" -> "reopen"
      [] op.op \in {"resyntax", "tokens", "ws-new"} -> "syntax"
      [] op.op = "buf" -> "isolated"

FactsOf(op) ==
    LET kind == OpKind(op) IN
    [has   |-> {"order", kind},
     idx   |-> {"order", kind},
     list  |-> {"order", "listing", kind},
     root  |-> {"listing"},
     cpath |-> {"listing"},
     t     |-> {"isolated"} \cup (IF kind = "reopen" THEN {"reopen"} ELSE {}),
     cur   |-> {"isolated"},
     mod   |-> {"isolated"} \cup (IF kind = "reopen" THEN {"reopen"} ELSE {}),
     id    |-> {"ident"},
     syn   |-> {"syntax"},
     fname |-> {"syntax"},
     fext  |-> {"syntax"},
     path  |-> {"isolated"} \cup (IF kind = "reopen" THEN {"reopen"} ELSE {}),
     cbs   |-> {"isolated"},
     res   |-> IF op.op = "add-file" THEN {"reopen"} ELSE {kind},
     disk  |-> {"isolated"} \cup (IF kind = "reopen" THEN {"reopen"} ELSE {})]

---------------------------------------------------------------------------
(* Properties of the design *)

SelectionValid(w) == w.cur \in 0..Len(w.bufs) /\ (w.cur = 0 <=> w.bufs = <<>>)

IdsUnique(w) ==
    /\ \A i \in 1..Len(w.bufs) : w.bufs[i].b.id \in 0..(w.next - 1)
    /\ Cardinality({w.bufs[i].b.id : i \in 1..Len(w.bufs)}) = Len(w.bufs)

RECURSIVE Repeat(_, _, _)
Repeat(Op(_), n, x) == IF n = 0 THEN x ELSE Repeat(Op, n - 1, Op(x))

CyclesReturn(w) ==
    /\ Repeat(NextBuffer, Len(w.bufs), w) = w
    /\ Repeat(PreviousBuffer, Len(w.bufs), w) = w
    /\ PreviousBuffer(NextBuffer(w)) = w
    /\ \A k \in 1..(Len(w.bufs) - 1) : Repeat(NextBuffer, k, w).cur # w.cur

AddThenClose(w) ==
    LET a == Add(w, NewBuffer(w.disk), -1) IN
    /\ a.bufs[a.cur].b.id = w.next
    /\ Close(a).bufs = w.bufs
    /\ w.cur # 0 => Close(a).cur = w.cur

OpenIdempotent(w, f) ==
    LET o == OpenFile(w, f, 0) IN
    /\ o.res = "ok" => /\ Current(o.w).path = f
                       /\ OpenFile(o.w, f, 0).w = o.w
    /\ o.res = "err" => o.w = w

=============================================================================
