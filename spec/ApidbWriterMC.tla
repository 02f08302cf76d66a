---------------------------- MODULE ApidbWriterMC ----------------------------
(* All histories over a few keys, in OSM order; generates the histories for replay. *)
EXTENDS ApidbWriter, TLC, Json
CONSTANTS Shape, Faults, Emit
VARIABLE k
vars == <<wvars, k>>
(* keys <<type, id, version>> in OSM order: each is absent, or present deleted or visible, with or without children *)
Grid(ts, ids, vers) == SelectSeq([n \in 1..(Len(ts) * Len(ids) * Len(vers)) |->
     LET m == n - 1  v == m % Len(vers)  i == (m \div Len(vers)) % Len(ids)  t == m \div (Len(vers) * Len(ids))
     IN <<ts[t + 1], ids[i + 1], vers[v + 1]>>], LAMBDA x : TRUE)
Keys == CASE Shape = "n" -> Grid(<<"n">>, <<1, 2>>, <<1, 2>>)
          [] Shape = "w" -> Grid(<<"w">>, <<1, 2>>, <<1, 2>>)
          [] Shape = "r" -> Grid(<<"r">>, <<1, 2>>, <<1, 2>>)
          [] Shape = "mixed" -> Grid(<<"n", "w", "r">>, <<1>>, <<1, 2>>)
          [] Shape = "deep" -> Grid(<<"w">>, <<1, 2>>, <<1, 2, 3>>)
          [] Shape = "faults" -> Grid(<<"n", "w">>, <<1, 2>>, <<1, 2>>)
Kids == IF Shape \in {"mixed", "faults"} THEN {0} ELSE {0, 1}
Init == WInit /\ k = 0
Skip == k < Len(Keys) /\ ~closed /\ res = "ok" /\ k' = k + 1 /\ UNCHANGED wvars
Give == k < Len(Keys) /\ k' = k + 1 /\ \E vis \in BOOLEAN, c \in Kids :
          Put([t |-> Keys[k + 1][1], id |-> Keys[k + 1][2], ver |-> Keys[k + 1][3], vis |-> vis, kids |-> c])
End == k = Len(Keys) /\ Close /\ UNCHANGED k
Next == Skip \/ Give \/ End
Spec == Init /\ [][Next]_vars
(* without faults, spilling early makes no difference: only the last moment is looked at *)
NoFaults == IF Faults THEN TRUE ELSE res = "ok" /\ (closed \/ \A t \in Tables : disk[t] = 0)
EmitHistory == (Emit /\ closed) => PrintT("HISTORY " \o ToJson(given))
=============================================================================
