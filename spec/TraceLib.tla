----------------------------- MODULE TraceLib -----------------------------
(* Scaffolding shared by the trace specifications. A batch of observations of the real  *)
(* code is read from the file named by TRACE_FILE, one JSON record per line. A trace     *)
(* specification has the variable tid (which observation) and consumes observation tid   *)
(* step by step; Progress records the longest prefix that some behaviour explains.       *)
(* TLC must run with one worker (registers are per worker).                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
NTraces == Len(Traces)

ResetProgress == \A i \in 1..NTraces : TLCSet(i, 0)
Progress(i, p) == IF p > TLCGet(i) THEN TLCSet(i, p) ELSE TRUE

(* total(t) is the number of steps an accepted observation t takes. *)
Verdict(total(_)) ==
  /\ \A i \in 1..NTraces :
        TLCGet(i) = total(Traces[i]) \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", NTraces>>)
=============================================================================
