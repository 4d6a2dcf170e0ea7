----------------------------- MODULE GenCursor -----------------------------
(***************************************************************************)
(* Movement (C01, C02): every cursor position, offset aimed for, and       *)
(* movement in every document made of a few pieces, including cursors that *)
(* an edit left outside of the document.                                   *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Pieces, MaxPieces, WithOutside

vars == <<b, past>>

Init == \E s \in TextsOf(Pieces, MaxPieces) : Setup([op |-> "replace", s |-> s])

MoveSomewhere == \E d \in Directions : Do([op |-> "move", dir |-> d])

GoSomewhere == \E p \in Around(b.text) \cup FarOut : Do([op |-> "goto", p |-> p])

(* Deleting up to the end leaves the cursor outside. *)
LeaveOutside ==
    /\ WithOutside
    /\ \E p \in AllPositions(b.text) :
         /\ Before(p, b.cur)
         /\ Do([op |-> "range", p |-> p, q |-> <<HugeNumber, 0>>])

Next == MoveSomewhere \/ GoSomewhere \/ LeaveOutside

Spec == Init /\ [][Next]_vars

View == <<b.text, b.cur, b.sticky>>

Contained == MovementContained(b)
(* Going down and back up again, or the other way around, leads back to    *)
(* the same offset, whatever is in between.                                *)
StickyHolds ==
    InBounds(b.text, b.cur) /\ b.cur[2] = b.sticky =>
      /\ b.cur[1] + 1 < LineCount(b.text) => Move(Move(b, "down"), "up").cur = b.cur
      /\ b.cur[1] > 0 => Move(Move(b, "up"), "down").cur = b.cur

A == <<97>>  Accented == <<101, 769>>  Feed == <<10>>  CRLF == <<13, 10>>  Return == <<13>>
QuickPieces == {A, Accented, Feed, CRLF}
DeepPieces == {A, Accented, Feed, CRLF, Return, <<128105>>}
=============================================================================
