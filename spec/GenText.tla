------------------------------ MODULE GenText ------------------------------
(***************************************************************************)
(* Edits, positions, and reads (T01 to T04): every short text over an      *)
(* alphabet of characters that combine with one another, at every place    *)
(* that the gap could have been left by the last edit, and with and        *)
(* without room left in it.                                                *)
(*                                                                         *)
(* The gap isn't part of the specification, since nothing may depend on    *)
(* it; it's tracked here as a ghost, the way the implementation moves it,  *)
(* so that states differing in it are told apart, and all of them tested.  *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS
    Pieces,     \* texts to insert
    Seeds,      \* texts to start from
    MaxLen,     \* code points per document
    WithQueries, WithOutside,
    Direct      \* whether to use the text buffer on its own

VARIABLES gap, room, size

vars == <<b, past, gap, room, size>>

Init ==
    \/ /\ \E s \in Seeds \cup (IF Direct THEN {<<>>} ELSE {}) :
            Setup([op |-> IF Direct THEN "gap-new" ELSE "replace", s |-> s])
       /\ gap = Len(b.text) + 1
       /\ room = 0
       /\ size = ByteLen(b.text)
    \/ /\ ~Direct
       /\ b = NewBuffer(NoFiles) /\ past = <<>>
       /\ gap = 1 /\ room = 0 /\ size = 0

Larger(x, y) == IF x > y THEN x ELSE y

GapAfterInsert(i, s) ==
    LET w == ByteLen(s)
        grown == Larger(Larger(2 * size, size + w), 8)
    IN /\ gap' = i + Len(s)
       /\ IF w > room
          THEN size' = grown /\ room' = grown - ByteLen(b.text) - w
          ELSE size' = size /\ room' = room - w

GapAfterDelete(i, w) == gap' = i /\ room' = room + w /\ UNCHANGED size

InsertSomewhere ==
    \E p \in AllPositions(b.text), s \in Pieces :
        /\ Len(b.text) + Len(s) <= MaxLen
        /\ IF Direct THEN Do([op |-> "gap-insert", p |-> p, s |-> s])
           ELSE DoAt(p, [op |-> "insert", s |-> s])
        /\ GapAfterInsert(Idx(b.text, p), s)

DeleteSomewhere ==
    /\ ~Direct
    /\ \E p \in AllPositions(b.text) :
        /\ DoAt(p, [op |-> "delete"])
        /\ GapAfterDelete(Idx(b.text, p), ByteLen(b.text) - ByteLen(b'.text))

DeleteInside ==
    \E p \in AllPositions(b.text), q \in AllPositions(b.text) :
        /\ Do([op |-> IF Direct THEN "gap-delete" ELSE "range", p |-> p, q |-> q])
        /\ GapAfterDelete(Idx(b.text, MinPos(p, q)), ByteLen(b.text) - ByteLen(b'.text))

DeleteOutside ==
    /\ WithOutside
    /\ \E p \in Around(b.text) \cup FarOut, q \in (Around(b.text) \ AllPositions(b.text)) \cup FarOut :
        /\ Do([op |-> IF Direct THEN "gap-delete" ELSE "range", p |-> p, q |-> q])
        /\ IF InBounds(b.text, MinPos(p, q))
           THEN GapAfterDelete(Idx(b.text, MinPos(p, q)), ByteLen(b.text) - ByteLen(b'.text))
           ELSE UNCHANGED <<gap, room, size>>

(* Insertions and deletions at places that don't exist. *)
EditNowhere ==
    /\ WithOutside /\ ~Direct
    /\ \E p \in Around(b.text) \ AllPositions(b.text), o \in {"insert", "delete"} :
        LET poke == [op |-> "poke", p |-> p]
            op == IF o = "insert" THEN [op |-> "insert", s |-> <<97>>] ELSE [op |-> "delete"]
        IN /\ Emit(<<poke, op>>, Predict(Then(b, poke), op))
           /\ UNCHANGED vars

InsertNowhere ==
    /\ WithOutside /\ Direct
    /\ \E p \in (Around(b.text) \ AllPositions(b.text)) \cup FarOut :
        Do([op |-> "gap-insert", p |-> p, s |-> <<97>>])
    /\ UNCHANGED <<gap, room, size>>

Queries ==
    /\ WithQueries
    /\ LET ps == Around(b.text) \cup FarOut
           inb == SeqOfSet({[op |-> IF Direct THEN "gap-inb" ELSE "inb", p |-> p] : p \in ps})
           reads == SeqOfSet({[op |-> IF Direct THEN "gap-read" ELSE "read", p |-> p, q |-> q] :
                                p \in AllPositions(b.text), q \in AllPositions(b.text) \cup FarOut})
           finds == SeqOfSet({[op |-> "search", s |-> s] : s \in Pieces \cup {<<>>}})
       IN EmitQueries(inb \o reads \o (IF Direct THEN <<>> ELSE <<[op |-> "lines"]>> \o finds))
    /\ UNCHANGED vars

Next == InsertSomewhere \/ DeleteSomewhere \/ DeleteInside \/ DeleteOutside \/ EditNowhere \/ InsertNowhere \/ Queries

Spec == Init /\ [][Next]_vars

View == <<b.text, gap, room = 0>>

(* Positions are consistent with each other. *)
PositionsConsistent ==
    LET ps == AllPositions(b.text) IN
    /\ \A p \in ps : InBounds(b.text, p) /\ PosOf(b.text, Idx(b.text, p)) = p
    /\ \A p \in Around(b.text) : InBounds(b.text, p) <=> p \in ps
    /\ \A p, q \in ps : Before(p, q) <=> Idx(b.text, p) < Idx(b.text, q)
    /\ \A p, q \in ps : \E s \in {ReadRange(b.text, p, q)} :
         s # <<>> /\ s[1] = SubSeq(b.text, Idx(b.text, MinPos(p, q)), Idx(b.text, MaxPos(p, q)) - 1)

A == <<97>>  E == <<101>>  Acute == <<769>>  Feed == <<10>>  Return == <<13>>  CRLF == <<13, 10>>
Woman == <<128105>>  ZWJ == <<8205>>  Flag == <<127464>>  Ka == <<2325>>  Virama == <<2381>>
HangulL == <<4352>>  HangulV == <<4449>>  Nul == <<0>>

QuickPieces == {A, Acute, Feed, Return, Woman, Flag}
QuickSeeds == {<<97, 10, 97>>, <<13, 10>>, <<128105, 8205, 128105>>, <<128105>>, <<97, 97, 97, 97>>}
DeepPieces == {A, Acute, Feed, Return, CRLF, Woman, ZWJ, Flag, Ka, Virama}
DeepSeeds == QuickSeeds \cup {<<2325, 2381, 2359>>, <<4352, 4449>>, <<127464, 127462, 97>>}
=============================================================================
