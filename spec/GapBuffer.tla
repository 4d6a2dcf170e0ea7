----------------------------- MODULE GapBuffer -----------------------------
(***************************************************************************)
(* How documents are stored: as an array of bytes with a gap, which is     *)
(* moved to wherever there's something to insert or remove. This is run in *)
(* lockstep with Text, where documents are plain sequences of code points  *)
(* and nothing but the content determines what a position refers to.       *)
(*                                                                         *)
(* A byte is represented by the character that it's part of along with its *)
(* index in there, so that it's obvious when characters are torn apart.    *)
(* Bytes in the gap are garbage.                                           *)
(*                                                                         *)
(* Design is a set of decisions, all of which are needed:                  *)
(*                                                                         *)
(*   "whole"      the content is segmented as a whole, rather than in two  *)
(*                halves                                                   *)
(*   "backwards"  the bytes in front of the gap are shifted last to first, *)
(*                so that they don't overwrite each other                  *)
(*   "end"        the gap is moved to the end before it's enlarged         *)
(*   "beyond"     what's found at the gap is what follows it               *)
(***************************************************************************)
EXTENDS Text, TLC

CONSTANTS Design, Pieces, MaxLen

VARIABLES
    text,   \* the document
    data,   \* the array
    gs, gl  \* where the gap starts, counting from zero, and how long it is

vars == <<text, data, gs, gl>>

With(decision) == decision \in Design

Garbage == <<0, 0>>

Bytes(s) == FlattenSeq([i \in 1..Len(s) |-> [k \in 1..Width(s[i]) |-> <<s[i], k>>]])

(* Characters made of bytes, and -1 for what isn't one. *)
RECURSIVE Decoded(_)
Decoded(bytes) ==
    IF bytes = <<>> THEN <<>>
    ELSE LET c == Head(bytes)[1] n == IF c < 0 THEN 1 ELSE Width(c) IN
         IF n <= Len(bytes) /\ SubSeq(bytes, 1, n) = Bytes(<<c>>)
         THEN <<c>> \o Decoded(SubSeq(bytes, n + 1, Len(bytes)))
         ELSE <<-1>> \o Decoded(Tail(bytes))

Contents(d, s, l) == SubSeq(d, 1, s) \o SubSeq(d, s + l + 1, Len(d))

---------------------------------------------------------------------------
(* Where a position is in the array, or -1. *)

(* An offset into the content, given an index into a text. *)
ByteOffset(t, i) == ByteLen(SubSeq(t, 1, i - 1))

Beyond(offset, s, l) ==
    IF offset < s \/ (offset = s /\ ~With("beyond")) THEN offset ELSE offset + l

FindInWhole(d, s, l, p) ==
    LET t == Decoded(Contents(d, s, l)) i == Idx(t, p) IN
    IF i = 0 THEN -1
    ELSE IF i = Len(t) + 1 THEN Len(d)
    ELSE Beyond(ByteOffset(t, i), s, l)

(* As it would be if clusters never spanned the gap. *)
FindInHalves(d, s, l, p) ==
    LET first == Decoded(SubSeq(d, 1, s))
        t == Decoded(Contents(d, s, l))
        starts == {i \in 1..Len(t) :
                     IF i <= Len(first) THEN IsStart(first, i)
                     ELSE IsStart(SubSeq(t, Len(first) + 1, Len(t)), i - Len(first))}
        line(i) == Cardinality({k \in 1..(i - 1) : t[k] = LF})
        offset(i) == Cardinality({k \in starts : k < i /\ line(k) = line(i)})
        hits == {i \in starts \cup {Len(t) + 1} : <<line(i), offset(i)>> = p}
    IN IF hits = {} THEN -1
       ELSE LET i == CHOOSE i \in hits : TRUE IN
            IF i = Len(t) + 1 THEN Len(d) ELSE Beyond(ByteOffset(t, i), s, l)

Find(d, s, l, p) == IF With("whole") THEN FindInWhole(d, s, l, p) ELSE FindInHalves(d, s, l, p)

---------------------------------------------------------------------------
(* Moving the gap, byte by byte. *)

RECURSIVE Shift(_, _, _)
(* Moves the bytes at the given indices (counting from zero) by some distance. *)
Shift(d, indices, by) ==
    IF indices = <<>> THEN d
    ELSE LET i == Head(indices) + 1 IN
         Shift([[d EXCEPT ![i + by] = d[i]] EXCEPT ![i] = Garbage], Tail(indices), by)

Upwards(m, n) == IF n <= m THEN <<>> ELSE [k \in 1..(n - m) |-> m + k - 1]
Downwards(m, n) == IF n <= m THEN <<>> ELSE [k \in 1..(n - m) |-> n - k]

MoveGap(d, s, l, to) ==
    IF l = 0 THEN [d |-> d, s |-> to]
    ELSE IF to < s
    THEN [d |-> Shift(d, IF With("backwards") THEN Downwards(to, s) ELSE Upwards(to, s), l), s |-> to]
    ELSE IF to > s
    THEN [d |-> Shift(d, Upwards(s + l, to), -l), s |-> to - l]
    ELSE [d |-> d, s |-> s]

(* The same, given an offset into the content. *)
MoveTo(d, s, l, offset) == MoveGap(d, s, l, IF offset > s THEN offset + l ELSE offset)

ContentOffset(found, s, l) == IF found > s THEN found - l ELSE found

---------------------------------------------------------------------------

Init == text = <<>> /\ data = <<>> /\ gs = 0 /\ gl = 0

(* Makes room for some bytes; how much is up to the allocator. *)
Enlarged(need, capacity) ==
    IF need <= gl THEN [d |-> data, s |-> gs, l |-> gl]
    ELSE LET m == IF With("end") THEN MoveGap(data, gs, gl, Len(data)) ELSE [d |-> data, s |-> gs]
             d == m.d \o [k \in 1..(capacity - Len(data)) |-> Garbage]
         IN [d |-> d, s |-> m.s, l |-> capacity - m.s]

Larger(x, y) == IF x > y THEN x ELSE y

Insert ==
    \E p \in AllPositions(text) \cup {<<5, 5>>}, piece \in Pieces :
      /\ Len(text) + Len(piece) <= MaxLen
      /\ text' = InsertText(text, p, piece)
      /\ LET found == Find(data, gs, gl, p)
             new == Bytes(piece)
         IN IF found = -1 THEN UNCHANGED <<data, gs, gl>>
            ELSE \E capacity \in {Len(data) + Len(new), Larger(2 * Len(data), Len(data) + Len(new))} :
                 LET r == Enlarged(Len(new), capacity)
                     m == MoveTo(r.d, r.s, r.l, ContentOffset(found, gs, gl))
                 IN /\ data' = [i \in 1..Len(m.d) |->
                                  IF i > m.s /\ i <= m.s + Len(new) THEN new[i - m.s] ELSE m.d[i]]
                    /\ gs' = m.s + Len(new)
                    /\ gl' = r.l - Len(new)

Delete ==
    \E p \in AllPositions(text) \cup {<<5, 5>>}, q \in AllPositions(text) \cup {<<0, 5>>, <<5, 5>>} :
      /\ ~Before(q, p)
      /\ text' = DeleteRange(text, p, q)
      /\ LET start == Find(data, gs, gl, p) IN
         IF start = -1 THEN UNCHANGED <<data, gs, gl>>
         ELSE LET m == MoveGap(data, gs, gl, start)
                  end == Find(m.d, m.s, gl, q)
                  below == Find(m.d, m.s, gl, <<q[1] + 1, 0>>)
              IN /\ data' = m.d
                 /\ gs' = m.s
                 /\ gl' = IF end # -1 THEN end - m.s
                          ELSE IF below # -1 THEN below - m.s
                          ELSE Len(data) - m.s

(* Undoing, which is based on offsets. *)
TakeBack ==
    \E i \in 1..Len(text), n \in 1..2 :
      /\ i + n <= Len(text) + 1
      /\ text' = Splice(text, i, n, <<>>)
      /\ LET m == MoveTo(data, gs, gl, ByteOffset(text, i)) IN
         /\ data' = m.d
         /\ gs' = m.s
         /\ gl' = gl + ByteLen(SubSeq(text, i, i + n - 1))

Next == Insert \/ Delete \/ TakeBack

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Bounded == gs >= 0 /\ gl >= 0 /\ gs + gl <= Len(data)
SameContent == Decoded(Contents(data, gs, gl)) = text
(* Positions exist regardless of where the gap is. *)
SamePositions ==
    \A p \in (0..3) \X (0..4) :
      LET found == Find(data, gs, gl, p) i == Idx(text, p) IN
      /\ (found = -1) = (i = 0)
      /\ found # -1 => ContentOffset(found, gs, gl) = ByteOffset(text, i)

(* What's in the gap doesn't matter. *)
View == <<text, gs, gl, Len(data)>>

Modest == Len(data) <= 12

Some == {<<97>>, <<233>>, <<769>>, <<13>>, <<10>>, <<97, 98>>}
Everything == {"whole", "backwards", "end", "beyond"}
WithoutWhole == Everything \ {"whole"}
WithoutBackwards == Everything \ {"backwards"}
WithoutEnd == Everything \ {"end"}
WithoutBeyond == Everything \ {"beyond"}
=============================================================================
