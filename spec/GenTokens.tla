----------------------------- MODULE GenTokens -----------------------------
(***************************************************************************)
(* Tokens (K01, K02): every text up to a length, made of what means        *)
(* something to the Toy definition, what's next to it, and what combines   *)
(* with it. A test has the position and scopes of every character.         *)
(***************************************************************************)
EXTENDS Tokens, TLC, Json

CONSTANTS Alphabet, MaxLen

VARIABLE t

Init == t = <<>>

Next == Len(t) < MaxLen /\ \E c \in Alphabet : t' = Append(t, c)

Spec == Init /\ [][Next]_t

Emit == PrintT(ToJson([text |-> t, pos |-> [i \in 1..Len(t) |-> PosOf(t, i)], scopes |-> ToyScopes(t)]))

(* Printed once per state. *)
Printed == Emit
Grounded == ToyGrounded(t)

Small == {40, 41, 35, 34, 49, 10, 769}
Large == {40, 41, 35, 34, 49, 10, 13, 769, 20013}
=============================================================================
