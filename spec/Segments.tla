------------------------------ MODULE Segments ------------------------------
(***************************************************************************)
(* Checks Text's idea of grapheme clusters (Class, Breaks) against the     *)
(* Unicode library that the implementation is based on, for the characters *)
(* that executions are made of. Should they differ, it's the specification *)
(* that's wrong: TLC then fails, as opposed to reporting contradictions.   *)
(***************************************************************************)
EXTENDS Text, TLC, Json, IOUtils

Samples == ndJsonDeserialize(IOEnv.TRACES)

VARIABLE i

Init == i \in 1..Len(Samples)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

Agrees == Starts(Samples[i].t) = Samples[i].s
=============================================================================
