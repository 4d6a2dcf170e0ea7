----------------------------- MODULE GenValues -----------------------------
(***************************************************************************)
(* Positions, distances, ranges, and lines (A01, L01): every combination   *)
(* of a few numbers, and every text made of a few pieces.                  *)
(***************************************************************************)
EXTENDS Gen

CONSTANTS Pieces, MaxPieces, Numbers

VARIABLE s

vars == <<b, past, s>>

Init == b = NewBuffer(NoFiles) /\ past = <<>> /\ s \in TextsOf(Pieces, MaxPieces)

Small == {n \in Numbers : n < HugeNumber}
Somewhere == {<<l, o>> : l \in Numbers, o \in Numbers}
Nearby == {<<l, o>> : l \in Small, o \in Small}

Ask(queries) == EmitQueries(SeqOfSet(queries)) /\ UNCHANGED vars

Arithmetic ==
    /\ s = <<>>
    /\ \/ \E p \in Somewhere : Ask({[op |-> "order", p |-> p, q |-> q] : q \in Somewhere})
       \/ \E p \in Somewhere : Ask({[op |-> "span", p |-> p, q |-> q] : q \in Somewhere})
       \/ \E p \in Somewhere, q \in Somewhere :
            Ask({[op |-> "span-includes", p |-> p, q |-> q, r |-> r] : r \in Somewhere})
       \/ \E m \in Small :
            Ask({[op |-> "line-range", m |-> m, n |-> n] : n \in Small}
                \cup {[op |-> "line-range-includes", m |-> m, n |-> n, l |-> l] : n \in Numbers, l \in Numbers})
       \/ \E p \in Nearby : Ask({[op |-> "add", p |-> p, d |-> d] : d \in Nearby})

Texts ==
    Ask({[op |-> "distance", s |-> s], [op |-> "iterate", s |-> s]})

(* The line count of buffers, along with positions on their last line. *)
Counts ==
    LET fill == [op |-> "replace", s |-> s]
    IN /\ \/ Emit(<<fill, [op |-> "lines"]>>, Predict(Then(b, fill), [op |-> "lines"]))
          \/ \E l \in (LineCount(s) - 1)..LineCount(s) :
               LET inb == [op |-> "inb", p |-> <<l, 0>>]
               IN Emit(<<fill, inb>>, Predict(Then(b, fill), inb))
       /\ UNCHANGED vars

Next == Arithmetic \/ Texts \/ Counts

Spec == Init /\ [][Next]_vars

Advancing == AdvancingExact(s)
Iteration == LinesExact(s)
Ordered == \A p, q \in Nearby : Compare(p, q) = -Compare(q, p)

Few == {0, 1, 2, HugeNumber}
More == {0, 1, 2, 3, 1000, HugeNumber}
QuickPieces == {<<97>>, <<769>>, <<10>>, <<13>>, <<128105>>}
DeepPieces == QuickPieces \cup {<<8205>>, <<127464>>, <<13, 10>>}
=============================================================================
