------------------------- MODULE TokenIteratorImpl -------------------------
(***************************************************************************)
(* How tokens are iterated over: lines are parsed one after another, and   *)
(* the events of the current one taken one by one, yielding a lexeme each  *)
(* time one is further along than what's been yielded. What's yielded is   *)
(* consumed by Tokens' transition system, which has to accept all of it,   *)
(* for every document, and every way in which scopes could be assigned.    *)
(*                                                                         *)
(* Design is a set of decisions, all of which are needed (the "Without"    *)
(* configurations leave one of them out each, and have to fail):           *)
(*                                                                         *)
(*   "all"      events at the same offset are all applied before the       *)
(*              lexeme that starts there is yielded                        *)
(*   "trim"     line breaks aren't part of lexemes, even if an event       *)
(*              follows them                                               *)
(*   "rest"     what follows the last event is yielded, too                *)
(*   "carry"    scopes outlast lines                                       *)
(*   "reset"    offsets start over with each line                          *)
(*   "clusters" offsets are found using clusters of the entire line, which *)
(*              can span lexemes                                           *)
(*   "break"    there's a token for each line break, including those of    *)
(*              blank lines                                                *)
(***************************************************************************)
EXTENDS Tokens, TLC

CONSTANTS Design, Alphabet, MaxLen, MaxEvents

VARIABLES
    t, events,  \* the document, and what the parser has to say about it
    x,          \* the tokenizer, as specified
    it,         \* the iterator
    wrong,      \* what has been yielded that shouldn't have been
    done

vars == <<t, events, x, it, wrong, done>>

With(decision) == decision \in Design

RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET s == Texts(n - 1) IN s \cup {Append(u, c) : u \in s, c \in Alphabet}

(* Lines, including their terminators. *)
Line(l) == LET sp == SpanIn(t, Feeds(t), l) IN SubSeq(t, sp[1], sp[2] - 1)

(* Sequences of events at offsets up to some, in order. *)
EventsUpTo(n) == [at : 0..n, k : {"push"}, n : {0}, s : {"p", "q"}] \cup [at : 0..n, k : {"pop"}, n : {1}, s : {""}]
RECURSIVE EventSeqs(_, _)
EventSeqs(n, count) ==
    IF count = 0 THEN {<<>>}
    ELSE LET s == EventSeqs(n, count - 1)
         IN s \cup {Append(es, e) : es \in {u \in s : Len(u) = count - 1}, e \in EventsUpTo(n)}
Ordered(es) == \A i \in 1..(Len(es) - 1) : es[i].at <= es[i + 1].at

RECURSIVE Assignments(_, _)
(* Of at most some events to the lines from l on. *)
Assignments(lengths, count) ==
    IF lengths = <<>> THEN {<<>>}
    ELSE UNION {{<<es>> \o rest : rest \in Assignments(Tail(lengths), count - Len(es))} :
                es \in {u \in EventSeqs(Head(lengths), count) : Ordered(u)}}

---------------------------------------------------------------------------
(* The iterator: number of the current line (or 0 if it's been dealt with) *)
(* and how many have been parsed; remaining events, offset within the      *)
(* line, offset of clusters, and scopes.                                   *)

Parsed(y, ts) ==
    IF y.parsed < Len(ts)
    THEN [y EXCEPT !.parsed = @ + 1, !.line = y.parsed + 1, !.evs = ts[y.parsed + 1],
                   !.off = IF With("reset") THEN 0 ELSE @,
                   !.pos = IF With("reset") THEN 0 ELSE @,
                   !.stack = IF With("carry") THEN @ ELSE <<>>]
    ELSE [y EXCEPT !.line = 0]

Start == [line |-> 0, parsed |-> 0, evs |-> <<>>, off |-> 0, pos |-> 0, stack |-> <<>>]

Init ==
    /\ t \in Texts(MaxLen)
    /\ events \in Assignments([l \in 1..LineCount(t) |-> Len(Line(l - 1))], MaxEvents)
    /\ x = Fresh /\ it = Parsed(Start, events) /\ wrong = FALSE /\ done = FALSE

Changed(stack, e) == IF e.k = "push" THEN Append(stack, e.s) ELSE Without(stack, e.n)

Lexeme(y, line, end) ==
    [n |-> FALSE, v |-> SubSeq(line, y.off + 1, end), p |-> <<y.line - 1, y.pos>>, s |-> y.stack]

(* How many clusters end between two offsets. *)
ClustersBetween(line, from, to) ==
    IF With("clusters")
    THEN Cardinality({i \in (from + 1)..to : i = Len(line) \/ Breaks(line, i)})
    ELSE ClusterCount(SubSeq(line, from + 1, to))

RECURSIVE Build(_)
(* The iterator afterwards, and what it yields: <<>> if that's nothing. *)
Build(y) ==
    IF y.line = 0 THEN [it |-> y, token |-> <<>>]
    ELSE LET line == Line(y.line - 1)
             eol == IF With("trim") /\ line # <<>> /\ Last(line) = LF THEN Len(line) - 1 ELSE Len(line)
         IN IF y.evs = <<>>
            THEN [it |-> [y EXCEPT !.line = 0],
                  token |-> IF With("rest") /\ y.off < eol THEN <<Lexeme(y, line, eol)>> ELSE <<>>]
            ELSE LET e == Head(y.evs)
                     z == [y EXCEPT !.evs = Tail(@), !.stack = Changed(@, e)]
                     end == IF e.at < eol THEN e.at ELSE eol
                     moved == [z EXCEPT !.off = e.at, !.pos = @ + ClustersBetween(line, y.off, end)]
                 IN IF e.at > y.off
                    THEN [it |-> moved, token |-> <<Lexeme(y, line, end)>>]
                    ELSE IF With("all") \/ e.at = 0 \/ line[e.at] = LF THEN Build(z)
                    ELSE \* whatever is there, up to the next event
                         LET to == IF z.evs = <<>> THEN eol ELSE IF z.evs[1].at < eol THEN z.evs[1].at ELSE eol
                         IN IF to = y.off THEN Build(z)
                            ELSE [it |-> [z EXCEPT !.off = to, !.pos = @ + ClustersBetween(line, y.off, to)],
                                  token |-> <<Lexeme(y, line, to)>>]

Yield(token) ==
    LET r == Take(t, events, x, token)
    IN x' = r.x /\ wrong' = ~(r.value /\ r.scope /\ r.pos) /\ done' = FALSE

Next ==
    /\ ~done /\ ~wrong
    /\ LET b == Build(it) IN
       IF b.token # <<>> THEN it' = b.it /\ Yield(b.token[1])
       ELSE LET y == Parsed(b.it, events)
                blank == y.line > 1 /\ Line(y.line - 2) = <<LF>>
            IN /\ it' = y
               /\ IF y.line # 0
                  THEN IF With("break") \/ ~blank THEN Yield([n |-> TRUE]) ELSE UNCHANGED <<x, wrong, done>>
                  ELSE done' = TRUE /\ UNCHANGED <<x, wrong>>
    /\ UNCHANGED <<t, events>>

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Accepted == ~wrong
(* What's counted along the way is where things are. *)
Located == x.i <= Len(t) => Here(t, x) = PosOf(t, x.i)
Ends == done => Exhausted(t, events, x)

Narrow == {97, 10, 769}
Wide == {97, 10, 13, 769}
AllDecisions == {"all", "trim", "rest", "carry", "reset", "clusters", "break"}
WithoutAll == AllDecisions \ {"all"}
WithoutTrim == AllDecisions \ {"trim"}
WithoutRest == AllDecisions \ {"rest"}
WithoutCarry == AllDecisions \ {"carry"}
WithoutReset == AllDecisions \ {"reset"}
WithoutClusters == AllDecisions \ {"clusters"}
WithoutBreak == AllDecisions \ {"break"}
=============================================================================
