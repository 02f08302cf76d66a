------------------------------ MODULE TraceAcc ------------------------------
(* Observed operations on accumulators, in the order they were executed (or, where threads ran       *)
(* freely, in the order of the script, which agrees with the order within each thread):               *)
(* ops <<thread, accumulator, "new" / "drop" / "take">> and <<thread, accumulator, "add", id>>;        *)
(* <<thread, slot, "churn", n>>: n accumulators made, used and dropped at once;                        *)
(* out: what each returned                                                                            *)
EXTENDS ThreadAcc, TraceLib
VARIABLES tid, pos, m
vars == <<tid, pos, m>>
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0 /\ m = Empty(0..(T.threads - 1), 0..(T.accs - 1))
Op == T.ops[pos + 1]
Out == T.out[pos + 1]
Adv == pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Add == pos < Len(T.out) /\ Op[3] = "add" /\ Out = [ok |-> TRUE] /\ m' = AddTo(m, Op[1], Op[2], Op[4]) /\ Adv
Make == pos < Len(T.out) /\ Op[3] = "new" /\ Out = [ok |-> TRUE] /\ m' = Forget(m, Op[2]) /\ Adv
Drop == pos < Len(T.out) /\ Op[3] \in {"drop", "churn"} /\ Out = [ok |-> TRUE] /\ UNCHANGED m /\ Adv
Take == pos < Len(T.out) /\ Op[3] = "take" /\ Out = [els |-> Taken(m, Op[1], Op[2])] /\ m' = Clear(m, Op[1], Op[2]) /\ Adv
Next == Add \/ Take \/ Make \/ Drop
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.ops)
Post == Verdict(Total)
=============================================================================
