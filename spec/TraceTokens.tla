---------------------------- MODULE TraceTokens ----------------------------
(***************************************************************************)
(* Validates recorded token streams against Tokens. Every execution is     *)
(* [name, ev], and every event is an iteration:                            *)
(*                                                                         *)
(*   op      [op, syn, t, again]: the document it was obtained from, and   *)
(*           whether the token set had been iterated over before, or the   *)
(*           document edited since                                         *)
(*   ok      whether it ended, neither crashing nor going on forever       *)
(*   error   whether it ended with an error                                *)
(*   parse   parser events                                                 *)
(*   tokens  what was iterated over                                        *)
(*                                                                         *)
(* Tokens are consumed one by one.                                         *)
(***************************************************************************)
EXTENDS Tokens, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES
    tid,    \* execution being validated
    l,      \* number of iterations validated
    k,      \* number of the current one's tokens that have been consumed
    x       \* the tokenizer

vars == <<tid, l, k, x>>

Ev == Traces[tid].ev

Init == tid \in 1..Len(Traces) /\ l = 0 /\ k = 0 /\ x = Fresh

Report(e, facts, token, where) ==
    PrintT(ToJson([contradiction |-> facts, trace |-> Traces[tid].name, event |-> l + 1, op |-> e.op,
                   token |-> k + 1, observed |-> token, at |-> where]))

Again(e, facts) == facts \cup (IF e.op.again THEN {"tokens.again"} ELSE {})

Finish == l' = l + 1 /\ k' = 0 /\ x' = Fresh /\ UNCHANGED tid

TakeToken ==
    /\ l < Len(Ev)
    /\ LET e == Ev[l + 1] IN
       /\ e.ok
       /\ k < Len(e.tokens)
       /\ LET token == e.tokens[k + 1]
              r == Take(e.op.t, e.parse, x, token)
              facts == (IF r.value THEN {} ELSE {"tokens"})
                       \cup (IF r.pos THEN {} ELSE {"tokens"})
                       \cup (IF r.scope THEN {} ELSE {"scopes"})
          IN /\ IF r.value
                THEN k' = k + 1 /\ x' = r.x /\ UNCHANGED <<tid, l>>
                ELSE Finish \* there's no telling what the rest should be
             /\ facts # {} => Report(e, Again(e, facts), token, PosOf(e.op.t, x.i))

EndIteration ==
    /\ l < Len(Ev)
    /\ LET e == Ev[l + 1] IN
       /\ ~e.ok \/ k = Len(e.tokens)
       /\ ~e.ok => Report(e, Again(e, {"tokens", "scopes"}), "no return", <<0, 0>>)
       /\ e.ok /\ (~Exhausted(e.op.t, e.parse, x) \/ e.error # Failed(e.op.t, e.parse)) =>
            Report(e, Again(e, {"tokens"}), "end", PosOf(e.op.t, x.i))
    /\ Finish

Next == TakeToken \/ EndIteration

Spec == Init /\ [][Next]_vars

View == <<tid, l, k>>

(* Executions are looked at to their end. *)
Done == TLCGet("stats").queue = 0
=============================================================================
