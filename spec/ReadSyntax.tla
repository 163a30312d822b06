----------------------------- MODULE ReadSyntax -----------------------------
(* What the specification reads in sequences of tokens. *)
EXTENDS OakSyntax, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Lanes == 48
VARIABLE n
Init == n \in 1..Lanes
Next == n <= Len(Cases) /\ n' = n + Lanes
Emit == n <= Len(Cases) => PrintT("@@" \o ToJson([n |-> n, r |-> Read(Cases[n])]))
=============================================================================
