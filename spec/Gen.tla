-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Common part of the exhaustive models of Buffer. Each of these explores  *)
(* every state of a bounded universe, and prints one test per transition:  *)
(* a shortest sequence of operations leading to its source, its operation, *)
(* and what that has to lead to. Tests are run against the implementation  *)
(* by the harness ("replay"), so that its state graph is covered, too.     *)
(*                                                                         *)
(* The sequence of operations isn't part of the state (see VIEW).          *)
(***************************************************************************)
EXTENDS Buffer, TLC, Json

VARIABLES
    b,      \* the buffer
    past    \* operations that led to it

NoFiles == [f \in FileNames |-> Absent]

Brief(o) == [t |-> o.b.text, cur |-> o.b.cur, mod |-> Modified(o.b), res |-> o.res, cbs |-> o.cbs,
             disk |-> o.b.disk, facts |-> o.facts]

(* Prints a test: all but the last operation is setup. *)
Emit(ops, o) ==
    PrintT(ToJson([ops |-> past \o ops, tail |-> Len(ops),
                   pre |-> [t |-> b.text, mod |-> Modified(b)],
                   exp |-> Brief(o)]))

(* Prints a test for several operations that don't change anything. *)
EmitQueries(queries) ==
    PrintT(ToJson([ops |-> past, tail |-> 0,
                   pre |-> [t |-> b.text, mod |-> Modified(b)],
                   queries |-> [i \in 1..Len(queries) |->
                                  [op |-> queries[i], exp |-> Brief(Predict(b, queries[i]))]]]))

Setup(op) ==
    /\ b = Predict(NewBuffer(NoFiles), op).b
    /\ past = <<op>>

Then(c, op) == Predict(c, op).b

(* An operation, optionally preceded by a movement. *)
Do(op) ==
    LET o == Predict(b, op)
    IN /\ Emit(<<op>>, o)
       /\ b' = o.b
       /\ past' = Append(past, op)

DoAt(p, op) ==
    LET go == [op |-> "goto", p |-> p]
        o == Predict(Then(b, go), op)
    IN /\ Emit(<<go, op>>, o)
       /\ b' = o.b
       /\ past' = past \o <<go, op>>

(* Sets as sequences, for queries. *)
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})

(* Texts made of up to n of the given pieces. *)
RECURSIVE TextsOf(_, _)
TextsOf(pieces, n) ==
    IF n = 0 THEN {<<>>}
    ELSE LET shorter == TextsOf(pieces, n - 1)
         IN shorter \cup {p \o t : p \in pieces, t \in shorter}

(* Positions in and just out of a text, and far from it. *)
HugeNumber == 1000000000
Around(t) ==
    {<<l, o>> : l \in 0..LineCount(t), o \in 0..(Len(t) + 1)}
FarOut == {<<0, HugeNumber>>, <<HugeNumber, 0>>, <<HugeNumber, HugeNumber>>}

=============================================================================
