----------------------------- MODULE ThreadAcc -----------------------------
(* Thread local accumulators: one list of elements for each thread and accumulator. Accumulators     *)
(* are made and dropped by any thread at any time; a new one is empty for every thread.               *)
EXTENDS Naturals, Sequences
Empty(threads, accs) == [t \in threads, a \in accs |-> <<>>]
AddTo(m, t, a, e) == [m EXCEPT ![t, a] = Append(@, e)]
Taken(m, t, a) == m[t, a]
Clear(m, t, a) == [m EXCEPT ![t, a] = <<>>]
Forget(m, a) == [x \in DOMAIN m |-> IF x[2] = a THEN <<>> ELSE m[x]]
=============================================================================
