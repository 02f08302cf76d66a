--------------------------- MODULE TraceResources ---------------------------
(* Observed use of the library: T.ops are <<what, handle>> with what one of "open", "drop", "use",     *)
(* "call" (a call that keeps no handle) and "end" (everything is dropped, and nothing runs);             *)
(* T.held[k] = <<files, threads>> more than at the start after operation k (threads is -1 where           *)
(* only files were observed), T.per what one handle may keep.                                             *)
EXTENDS TraceLib
VARIABLES tid, pos, open
vars == <<tid, pos, open>>
(* The rule at rest is that of the design specification. *)
R == INSTANCE Resources WITH Handles <- {}, FileMax <- 0, ThreadMax <- 0, PerHandle <- 0,
       keeps <- <<>>, call <- "none", files <- 0, threads <- 0
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0 /\ open = {}
Op == T.ops[pos + 1]
NowOpen ==
  CASE Op[1] = "open" -> open \cup {Op[2]}
    [] Op[1] = "drop" -> open \ {Op[2]}
    [] Op[1] = "end" -> {}
    [] OTHER -> open
Step ==
  /\ pos < Len(T.held)
  /\ open' = NowOpen
  /\ TRUE = R!AtRest(T.held[pos + 1][1], IF T.held[pos + 1][2] = -1 THEN 0 ELSE T.held[pos + 1][2], R!Cardinality(NowOpen), T.per)
  /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
End == pos = Len(T.held) /\ T.done /\ pos = Len(T.ops) /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED <<tid, open>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.held) + 1
Post == Verdict(Total)
=============================================================================
