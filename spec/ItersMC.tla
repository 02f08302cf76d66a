------------------------------ MODULE ItersMC ------------------------------
(* Every interleaving of creating, advancing and dropping a few iterators. Generates the        *)
(* scripts that are replayed on the real iterators (a script is the list of operations), and     *)
(* checks that what an iterator delivers is a prefix of what it would deliver alone.             *)
EXTENDS Iters, TLC, Json
CONSTANTS NIter, MaxOps, Emit
VARIABLES its, script, got
vars == <<its, script, got>>
File == <<<<1>>, <<2, 3>>>>          \* two blocks; the elements stand for positions
Files == <<File>>
Kinds == {"el", "bl"}
Init == its = [i \in 1..NIter |-> <<>>] /\ script = <<>> /\ got = [i \in 1..NIter |-> <<>>]
More == Len(script) < MaxOps
New(i, k) == /\ More /\ its[i] = <<>> /\ \A j \in 1..(i - 1) : its[j] # <<>>
             /\ its' = [its EXCEPT ![i] = <<Fresh(k, 1)>>] /\ got' = [got EXCEPT ![i] = <<>>]
             /\ script' = Append(script, <<k, i>>)
Nxt(i) == /\ More /\ its[i] # <<>>
          /\ got' = IF Ended(Files, its[i][1]) THEN got ELSE [got EXCEPT ![i] = Append(@, ItemAt(File, its[i][1].kind, its[i][1].at + 1))]
          /\ its' = [its EXCEPT ![i] = <<Advance(Files, its[i][1])>>]
          /\ script' = Append(script, <<"next", i>>)
Drop(i) == /\ More /\ its[i] # <<>> /\ its' = [its EXCEPT ![i] = <<>>] /\ got' = [got EXCEPT ![i] = <<>>]
           /\ script' = Append(script, <<"drop", i>>)
Step == \E i \in 1..NIter : Nxt(i) \/ Drop(i) \/ \E k \in Kinds : New(i, k)
Next == Step
Spec == Init /\ [][Next]_vars
(* after so many operations a behaviour is complete: print it for replay *)
Complete == Len(script) = MaxOps
EmitScript == (Complete /\ Emit) => PrintT("SCRIPT " \o ToJson(script))
PrefixAlone == \A i \in 1..NIter : its[i] # <<>> => LET k == its[i][1].kind IN
   /\ Len(got[i]) <= Length(File, k)
   /\ \A j \in 1..Len(got[i]) : got[i][j] = ItemAt(File, k, j)
   /\ its[i][1].at = Len(got[i])
=============================================================================
