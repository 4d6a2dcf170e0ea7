------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Positions, distances, ranges, and line ranges as values, and lines as   *)
(* iterated over. Nothing here depends on a buffer's state.                *)
(***************************************************************************)
EXTENDS Text

Compare(p, q) == IF Before(p, q) THEN -1 ELSE IF Before(q, p) THEN 1 ELSE 0

(* <, <=, =, >=, > in this order. *)
Relations(p, q) ==
    LET c == Compare(p, q) IN <<c, c < 0, c <= 0, c = 0, c >= 0, c > 0>>

RangeOf(p, q) == <<MinPos(p, q), MaxPos(p, q)>>
RangeIncludes(p, q, r) == ~Before(r, MinPos(p, q)) /\ Before(r, MaxPos(p, q))

Lesser(m, n) == IF m < n THEN m ELSE n
Greater(m, n) == IF m < n THEN n ELSE m

(* Ends, range, and range including the last line. *)
LineRangeOf(m, n) ==
    LET s == Lesser(m, n) e == Greater(m, n)
    IN <<s, e, <<s, 0>>, <<e, 0>>, <<s, 0>>, <<e + 1, 0>> >>
LineRangeIncludes(m, n, l) == Lesser(m, n) <= l /\ l < Greater(m, n)

(* Every line along with its number, terminators included. *)
Lines(t) ==
    LET fs == Feeds(t)
    IN [k \in 1..LineCount(t) |->
          LET sp == SpanIn(t, fs, k - 1) IN <<k - 1, SubSeq(t, sp[1], sp[2] - 1)>>]

ValueOps == {"order", "span", "span-includes", "line-range", "line-range-includes",
             "distance", "add", "iterate"}

Value(op) ==
    CASE op.op = "order"    -> Relations(op.p, op.q)
      [] op.op = "span"     -> RangeOf(op.p, op.q)
      [] op.op = "span-includes" -> RangeIncludes(op.p, op.q, op.r)
      [] op.op = "line-range" -> LineRangeOf(op.m, op.n)
      [] op.op = "line-range-includes" -> LineRangeIncludes(op.m, op.n, op.l)
      [] op.op = "distance" -> Distance(op.s)
      [] op.op = "add"      -> <<AddDistance(op.p, op.d), AddDistance(op.p, op.d)>> \* + and +=
      [] op.op = "iterate"  -> Lines(op.s)

ValueFact(op) ==
    CASE op.op = "order" -> "order"
      [] op.op \in {"span", "span-includes"} -> "range"
      [] op.op \in {"line-range", "line-range-includes"} -> "linerange"
      [] op.op \in {"distance", "add"} -> "distance"
      [] op.op = "iterate" -> "iterate"

---------------------------------------------------------------------------
(* What these are for. *)

(* Advancing over a text leads to where it ends, as long as it starts and  *)
(* ends on cluster boundaries and doesn't merge with what's before it.     *)
AdvancingExact(t) ==
    \A i \in 1..(Len(t) + 1), j \in 1..(Len(t) + 1) :
        /\ i <= j
        /\ i = Len(t) + 1 \/ IsStart(t, i)
        /\ j = Len(t) + 1 \/ IsStart(t, j)
        => LET s == SubSeq(t, i, j - 1)
               alone == \A k \in 1..Len(s) : IsStart(s, k) <=> IsStart(t, i + k - 1)
           IN alone => AddDistance(PosOf(t, i), Distance(s)) = PosOf(t, j)

(* Lines cover the text, and their number is that of the greatest line     *)
(* that exists, plus one.                                                  *)
LinesExact(t) ==
    LET ls == Lines(t) IN
    /\ FoldLeft(LAMBDA a, l : a \o l[2], <<>>, ls) = t
    /\ \A k \in 1..Len(ls) :
         /\ ls[k][1] = k - 1
         /\ \A i \in 1..Len(ls[k][2]) : ls[k][2][i] = LF <=> (i = Len(ls[k][2]) /\ k < Len(ls))
         /\ InBounds(t, <<k - 1, 0>>)
    /\ ~InBounds(t, <<Len(ls), 0>>)

=============================================================================
