---------------------------- MODULE TraceDamage ----------------------------
(* Observed readings of damaged dumps: T.d are the facts about the dump, T.want what its rows      *)
(* stand for (key form, a sentinel after each type), T.alt the same without what a broken row held   *)
(* that does not say any more where it belongs, T.got what was delivered, T.end how it ended.   *)
EXTENDS DumpDamage, TraceLib
VARIABLES tid, pos
vars == <<tid, pos>>
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0
Adv == pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Element == pos < Len(T.got) /\ pos < Len(T.want) /\ T.got[pos + 1] \in {T.want[pos + 1], T.alt[pos + 1]} /\ Adv
Failed == T.end \in {"err", "panic"}
End ==
  /\ pos = Len(T.got)
  /\ TRUE = (IF Incomplete(T.d) THEN Failed
             ELSE IF Doubtful(T.d) THEN Failed \/ (T.end = "ok" /\ Len(T.got) = Len(T.want))
             ELSE T.end = "ok" /\ Len(T.got) = Len(T.want))
  /\ Adv
Next == Element \/ End
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.got) + 1
Post == Verdict(Total)
=============================================================================
