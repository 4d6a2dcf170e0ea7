------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* Tokens: how a document is taken apart by the scopes that a parser       *)
(* assigns to it.                                                          *)
(*                                                                         *)
(* The parser is given one line after another (terminators included), and  *)
(* answers with events: offsets at which the stack of scopes changes, and  *)
(* how. What these are is up to the syntax definition; everything that's   *)
(* made out of them is specified here, as a transition system that         *)
(* consumes the document token by token. Where lexemes start and end isn't *)
(* prescribed beyond what is needed: scopes are the same throughout, and   *)
(* they don't go beyond their line.                                        *)
(*                                                                         *)
(*   t        the document                                                 *)
(*   events   parser events by line: [at, k, n, s], the code point offset, *)
(*            kind, number of scopes, and scope. Parsers can fail, in      *)
(*            which case there are none for the line where that happens.   *)
(***************************************************************************)
EXTENDS Text

(* The state of a tokenizer: index of the next character, its line and     *)
(* that line's start, number of clusters that have started on the line,    *)
(* number of the line's events that have been applied, scopes, and scopes  *)
(* that were cleared to be restored later on.                              *)
Fresh == [i |-> 1, ln |-> 0, start |-> 1, n |-> 0, e |-> 0, stack |-> <<>>, cleared |-> <<>>]

Without(s, n) == SubSeq(s, 1, Len(s) - (IF n < Len(s) THEN n ELSE Len(s)))

Apply(x, ev) ==
    CASE ev.k = "push" -> [x EXCEPT !.stack = Append(@, ev.s)]
      [] ev.k = "pop"  -> [x EXCEPT !.stack = Without(@, ev.n)]
      [] ev.k = "clear" ->
           LET left == Without(x.stack, ev.n)
           IN [x EXCEPT !.stack = left,
                        !.cleared = Append(@, SubSeq(x.stack, Len(left) + 1, Len(x.stack)))]
      [] ev.k = "restore" ->
           [x EXCEPT !.stack = @ \o Last(x.cleared), !.cleared = Without(@, 1)]
      [] ev.k = "noop" -> x

RECURSIVE Advance(_, _, _)
(* Applies a line's events up to an offset. *)
Advance(x, evs, offset) ==
    IF x.e < Len(evs) /\ evs[x.e + 1].at <= offset
    THEN Advance([Apply(x, evs[x.e + 1]) EXCEPT !.e = x.e + 1], evs, offset)
    ELSE x

Far == 1000000000

(* The state in which the next character's scopes are known. *)
Ready(x, events) == Advance(x, events[x.ln + 1], x.i - x.start)

(* The state after a line break. *)
BreakLine(x, events) ==
    [Advance(x, events[x.ln + 1], Far) EXCEPT !.i = x.i + 1, !.ln = x.ln + 1, !.start = x.i + 1, !.n = 0, !.e = 0]

(* The number of clusters that have started on the line once the next      *)
(* character has been consumed.                                            *)
Started(t, x) == x.n + (IF IsStart(t, x.i) THEN 1 ELSE 0)

(* The position of what comes next, or that of the cluster it's part of. *)
Here(t, x) == <<x.ln, Started(t, x) - 1>>

(* Consumes a lexeme's characters, resulting in the state after it and     *)
(* whether it's made up of what comes next, and scoped as it should be.    *)
Consume(t, events, x, v, scopes) ==
    FoldLeft(LAMBDA a, c :
                 IF ~a.value THEN a
                 ELSE IF a.x.ln >= Len(events) \/ a.x.i > Len(t) \/ t[a.x.i] # c \/ c = LF
                 THEN [a EXCEPT !.value = FALSE]
                 ELSE LET y == Ready(a.x, events)
                      IN [x |-> [y EXCEPT !.i = @ + 1, !.n = Started(t, y)], value |-> TRUE,
                          scope |-> a.scope /\ y.stack = scopes],
             [x |-> x, value |-> TRUE, scope |-> TRUE], v)

(* Tokens are [n, v, p, s]: whether it's a line break; value, position, and *)
(* scopes otherwise. Empty lexemes aren't anywhere in particular.          *)
Take(t, events, x, token) ==
    IF token.n
    THEN IF x.ln < Len(events) /\ x.i <= Len(t) /\ t[x.i] = LF
         THEN [x |-> BreakLine(x, events), value |-> TRUE, scope |-> TRUE, pos |-> TRUE]
         ELSE [x |-> x, value |-> FALSE, scope |-> TRUE, pos |-> TRUE]
    ELSE LET c == Consume(t, events, x, token.v, token.s)
         IN [x |-> c.x, value |-> c.value, scope |-> c.scope,
             pos |-> token.v = <<>> \/ ~c.value \/ token.p = Here(t, x)]

Failed(t, events) == Len(events) < LineCount(t)

(* Whether there's nothing left, or the parser fails here. Whether the     *)
(* line break in front of a line that can't be parsed is there is up to    *)
(* the implementation.                                                     *)
Exhausted(t, events, x) ==
    IF ~Failed(t, events) THEN x.i > Len(t)
    ELSE \/ x.ln = Len(events)
         \/ x.ln = Len(events) - 1 /\ t[x.i] = LF

---------------------------------------------------------------------------
(* A syntax definition small enough to be specified, too: groups in        *)
(* parentheses, comments up to the end of their line, and strings that can *)
(* span lines. It makes use of the ways in which definitions can assign    *)
(* scopes: while matching, while within (including what starts it, or      *)
(* not), and in place of others.                                           *)

ToyStart == [ctx |-> <<"main">>, stack |-> <<"source">>, hidden |-> <<>>]

Open == 40  Close == 41  Hash == 35  Quote == 34
Digit(c) == c \in 48..57

Within(x) == Last(x.ctx)

(* The scopes of a character, and the state after it. *)
ToyChar(x, c) ==
    LET here == Within(x) same == [scopes |-> x.stack, x |-> x] IN
    IF here = "comment"
    THEN IF c = LF THEN [scopes |-> x.stack, x |-> [x EXCEPT !.ctx = Without(@, 1), !.stack = Without(@, 1)]]
         ELSE same
    ELSE IF here = "string"
    THEN IF c = Quote
         THEN [scopes |-> x.stack \o <<"unquote">>,
               x |-> [x EXCEPT !.ctx = Without(@, 1), !.hidden = Without(@, 1),
                               !.stack = Without(@, 1) \o Last(x.hidden)]]
         ELSE IF Digit(c) THEN [same EXCEPT !.scopes = @ \o <<"digit">>]
         ELSE same
    ELSE IF c = Open
    THEN [scopes |-> x.stack \o <<"open">>,
          x |-> [x EXCEPT !.ctx = @ \o <<"group">>, !.stack = @ \o <<"group">>]]
    ELSE IF c = Hash
    THEN [scopes |-> x.stack \o <<"comment", "hash">>,
          x |-> [x EXCEPT !.ctx = @ \o <<"comment">>, !.stack = @ \o <<"comment">>]]
    ELSE IF c = Quote
    THEN [scopes |-> Without(x.stack, 1) \o <<"string", "quote">>,
          x |-> [x EXCEPT !.ctx = @ \o <<"string">>, !.hidden = @ \o << <<Last(x.stack)>> >>,
                          !.stack = Without(@, 1) \o <<"string">>]]
    ELSE IF Digit(c) THEN [same EXCEPT !.scopes = @ \o <<"number">>]
    ELSE IF c = Close /\ here = "group"
    THEN [scopes |-> Without(x.stack, 1) \o <<"close">>,
          x |-> [x EXCEPT !.ctx = Without(@, 1), !.stack = Without(@, 1)]]
    ELSE same

RECURSIVE ToyScopesFrom(_, _, _)
ToyScopesFrom(t, i, x) ==
    IF i > Len(t) THEN <<>>
    ELSE LET r == ToyChar(x, t[i]) IN <<r.scopes>> \o ToyScopesFrom(t, i + 1, r.x)

(* The scopes of every character. *)
ToyScopes(t) == ToyScopesFrom(t, 1, ToyStart)

(* The source scope is there throughout unless strings hide it. *)
ToyGrounded(t) ==
    LET ss == ToyScopes(t) IN
    \A i \in 1..Len(t) : ss[i] # <<>> /\ (ss[i][1] = "source" \/ \E j \in 1..i : t[j] = Quote)

=============================================================================
