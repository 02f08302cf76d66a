------------------------------ MODULE Arrivals ------------------------------
(* The orders in which encoded blocks can arrive at the writing thread: blocks are taken from a   *)
(* queue by Workers threads, so the next to arrive is one of the first Workers that have not       *)
(* arrived. Generates every order for replay on the real pipeline.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Blocks, Workers, Emit
VARIABLE arrived
Range(s) == {s[i] : i \in DOMAIN s}
Init == arrived = <<>>
Waiting == (1..Blocks) \ Range(arrived)
Next == \E b \in Waiting : Cardinality({c \in Waiting : c < b}) < Workers /\ arrived' = Append(arrived, b)
Spec == Init /\ [][Next]_arrived
EmitOrder == (Emit /\ Len(arrived) = Blocks) => PrintT("ORDER " \o ToJson(arrived))
(* a block is overtaken by fewer blocks than there are workers at any moment *)
Held == {arrived[i] : i \in {i \in DOMAIN arrived : \E b \in 1..(arrived[i] - 1) : b \notin Range(arrived)}}
FewHeld == \A i \in DOMAIN arrived : arrived[i] <= i - 1 + Workers
=============================================================================
