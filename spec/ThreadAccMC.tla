---------------------------- MODULE ThreadAccMC ----------------------------
(* Every script of makes, adds, takes and drops by a few threads on a few accumulators, up to a        *)
(* renaming of threads and accumulators; generates the scripts for replay. Nothing is lost, duplicated  *)
(* or seen elsewhere: what has been added to an accumulator since it was made is what has been taken,   *)
(* in order, followed by what is pending.                                                               *)
EXTENDS ThreadAcc, TLC, Json
CONSTANTS NT, NA, MaxOps, Emit
VARIABLES m, live, script, added, taken
vars == <<m, live, script, added, taken>>
Th == 0..(NT - 1)
Ac == 0..(NA - 1)
Init == m = Empty(Th, Ac) /\ live = {} /\ script = <<>> /\ added = Empty(Th, Ac) /\ taken = Empty(Th, Ac)
UsedT == {script[i][1] : i \in DOMAIN script}
UsedA == {script[i][2] : i \in DOMAIN script}
Canon(t, a) == (\A u \in Th : u < t => u \in UsedT) /\ (\A b \in Ac : b < a => b \in UsedA)
Make(t, a) == /\ a \notin live /\ live' = live \cup {a}
              /\ added' = Forget(added, a) /\ taken' = Forget(taken, a) /\ m' = Forget(m, a)
              /\ script' = Append(script, <<t, a, "new">>)
Drop(t, a) == /\ a \in live /\ live' = live \ {a} /\ UNCHANGED <<m, added, taken>>
              /\ script' = Append(script, <<t, a, "drop">>)
Add(t, a) == LET e == Len(script) + 1 IN
  /\ a \in live /\ m' = AddTo(m, t, a, e) /\ added' = AddTo(added, t, a, e) /\ UNCHANGED <<taken, live>>
  /\ script' = Append(script, <<t, a, "add", e>>)
Take(t, a) ==
  /\ a \in live
  /\ taken' = [taken EXCEPT ![t, a] = @ \o Taken(m, t, a)] /\ m' = Clear(m, t, a) /\ UNCHANGED <<added, live>>
  /\ script' = Append(script, <<t, a, "take">>)
Next == Len(script) < MaxOps /\ \E t \in Th, a \in Ac : Canon(t, a) /\ (Make(t, a) \/ Drop(t, a) \/ Add(t, a) \/ Take(t, a))
Spec == Init /\ [][Next]_vars
Conserved == \A t \in Th, a \in Ac : taken[t, a] \o m[t, a] = added[t, a]
(* only scripts that end by taking show anything *)
EmitScript == (Emit /\ Len(script) = MaxOps /\ script[MaxOps][3] = "take") => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
