---------------------------- MODULE TraceMemory ----------------------------
(* Observed memory: T.runs are [what, end, seen, peak, kept] (bytes beyond those in use before the run), *)
(* T.unit the bytes of T.per elements, T.n how many elements there were, T.block elements of a block of    *)
(* the file read. An element in a queue may exist in several forms (its bytes, decoded, built).            *)
EXTENDS TraceLib
VARIABLES tid, pos
vars == <<tid, pos>>
M == INSTANCE Memory WITH Total <- 0, Batch <- 0, Queue <- 0, Buf <- 0, Block <- 0, Workers <- 0, Skew <- 0,
      made <- 0, q1 <- <<>>, buf <- 0, cut <- 0, q2 <- <<>>, at <- {}, q3 <- <<>>, done <- {}, next <- 0
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0
Run == T.runs[pos + 1]
Forms == 5
Writer(batch) == M!WriterMost(batch, 256, T.buf, T.blk, 4, 64) + Forms * 5 * T.blk
(* elements that may be held, of the order of which memory may be used *)
Most(r) ==
  CASE r.what \in {"seqw", "seqws"} -> M!SequentialMost(8000 + T.per, Forms)
    [] r.what \in {"parw", "parws", "lost", "full"} -> Writer(IF r.what = "parw" THEN 1 ELSE T.per)
    [] r.what = "copy" -> 2 * Writer(IF r.block > T.per THEN r.block ELSE T.per) +     \* decoded elements take more than made ones
                            M!IterationMost(r.block, Forms, r.tasks)
    [] r.what \in {"acc", "refill"} -> M!SequentialMost(T.per, Forms)
    [] r.what = "early" -> M!SequentialMost(r.block, 2 * Forms)
    [] r.what \in {"dumpw", "dumpr"} -> M!SequentialMost(T.per, Forms)
    [] r.what \in {"elements", "blocks"} -> M!SequentialMost(r.block, Forms)
    [] OTHER -> M!IterationMost(r.block, Forms, r.tasks)
(* bytes that do not depend on the elements: buffers; for an iteration also its queue of 1024 blobs to read *)
Slack(r) == 2097152 + (IF r.what \in {"par", "count", "bbox", "copy", "fails"} THEN 1024 * 2048 + r.tasks * 1048576 ELSE 0)
Units(bytes) == bytes \div T.unit
Bound(r) == Most(r) \div T.per + 1 + Slack(r) \div T.unit
Step ==
  /\ pos < Len(T.runs)
  /\ TRUE = (/\ IF Run.what \in {"lost", "full"} THEN Run.end = "err" ELSE Run.end = "ok" \/ Run.what = "copy"      \* order may be lost: nobody says how far the tasks drift apart
             /\ Run.reads => Run.seen = T.n
             /\ Units(Run.peak) <= Bound(Run)
             /\ Run.kept <= 262144)
  /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Next == Step
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.runs)
Post == Verdict(Total)
=============================================================================
