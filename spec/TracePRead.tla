----------------------------- MODULE TracePRead -----------------------------
(* An observed parallel iteration. T = [blocks, fails, ev, end, late]: the data blocks of the file *)
(* (independently decoded, elements in key form), the elements on which the callback failed (the     *)
(* driver's callback fails on sentinels if fails contains one), the callbacks in the order they were *)
(* recorded, as <<thread, element>>, the result, and the number of callbacks seen after the return.  *)
EXTENDS ParallelRead, TraceLib, FiniteSets, FiniteSetsExt
VARIABLES tid, pos, st
vars == <<tid, pos, st>>
T == Traces[tid]
(* the blocks that begin with an element; <<>>: the empty blocks *)
FirstOf(b) == IF b = <<>> THEN <<>> ELSE b[1]
Starts == TLCEval([i \in 1..NTraces |-> LET bl == Traces[i].blocks
                                            F == {FirstOf(bl[b]) : b \in DOMAIN bl}
                                            G == [e \in F |-> {b \in DOMAIN bl : FirstOf(bl[b]) = e}]
                                        IN TLCEval(G)])
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0 /\ st = Fresh(0..63)
Fails(e) == \E i \in DOMAIN T.fails : T.fails[i] = <<e[1], e[2], e[3]>>
Adv == pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Visit ==
  /\ pos < Len(T.ev)
  /\ LET t == T.ev[pos + 1][1]
         e == T.ev[pos + 1][2]
         sentinel == e[1] = 4
         here == IF sentinel THEN IsSentinel(T.blocks, st, t) ELSE IsElement(T.blocks, st, t, e)
         V(s) == IF sentinel THEN VisitSentinel(s, t, Fails(e)) ELSE VisitElement(s, t, Fails(e))
     IN \/ here /\ st' = V(st)
        \/ /\ ~MustGoOn(st, t)
           /\ ~(here /\ sentinel)           \* taking it for the sentinel of an empty block allows no more later on
           /\ LET k == IF sentinel THEN <<>> ELSE e
                  C == IF k \in DOMAIN Starts[tid] THEN Starts[tid][k] \ st.started ELSE {}
                  P == IF sentinel /\ C # {} THEN {Min(C)} ELSE C           \* empty blocks are interchangeable
              IN \E b \in P : st' = V(Start(st, t, b))
  /\ Adv
Done == pos = Len(T.ev) /\ T.late = 0 /\ TRUE = ResultOk(T.blocks, st, T.end) /\ UNCHANGED st /\ Adv
Next == Visit \/ Done
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.ev) + 1
Post == Verdict(Total)
=============================================================================
