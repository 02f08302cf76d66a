--------------------------- MODULE ParallelReadMC ---------------------------
(* The implementation's design: the caller puts one command for each block in a bounded queue,     *)
(* then waits for the queue to drain and for the threads. A thread that is done with a command      *)
(* takes the next one, also after a failure. All files of a few blocks, all failure sets, all        *)
(* interleavings; the events that the design produces must be those of ParallelRead.                 *)
EXTENDS ParallelRead, FiniteSets, TLC
CONSTANTS Threads, QSize, MaxBlocks, MaxLen
VARIABLES file, fails, next, queue, work, at, terr, phase, result, st, ok
vars == <<file, fails, next, queue, work, at, terr, phase, result, st, ok>>
(* elements are <<block, index>>; the sentinel of block b is <<b, 0>> *)
Lens == UNION {[1..n -> 0..MaxLen] : n \in 0..MaxBlocks}
Init ==
  /\ \E l \in Lens : file = [b \in DOMAIN l |-> [i \in 1..l[b] |-> <<b, i>>]]
  /\ fails \in {F \in SUBSET (UNION {{<<b, i>> : i \in 0..Len(file[b])} : b \in DOMAIN file}) : Cardinality(F) <= 2}
  /\ next = 1 /\ queue = <<>> /\ work = [t \in Threads |-> 0] /\ at = [t \in Threads |-> 0]
  /\ terr = [t \in Threads |-> FALSE] /\ phase = "submit" /\ result = "none"
  /\ st = Fresh(Threads) /\ ok = TRUE
Submit == /\ phase = "submit" /\ next <= Len(file) /\ Len(queue) < QSize
          /\ queue' = Append(queue, next) /\ next' = next + 1
          /\ UNCHANGED <<file, fails, work, at, terr, phase, result, st, ok>>
Drain == /\ phase = "submit" /\ next > Len(file) /\ queue = <<>> /\ phase' = "join"
         /\ UNCHANGED <<file, fails, next, queue, work, at, terr, result, st, ok>>
Take(t) == /\ work[t] = 0 /\ queue # <<>> /\ \A u \in Threads : u < t => work[u] # 0
           /\ work' = [work EXCEPT ![t] = queue[1]] /\ queue' = Tail(queue) /\ at' = [at EXCEPT ![t] = 0]
           /\ UNCHANGED <<file, fails, next, terr, phase, result, st, ok>>
(* one callback; st follows it as the observer of the trace specification does *)
Visit(t) ==
  /\ work[t] # 0
  /\ LET b == work[t]
         atEnd == at[t] = Len(file[b])
         e == IF atEnd THEN <<b, 0>> ELSE file[b][at[t] + 1]
         f == e \in fails
         s1 == IF st.cur[t].b = b THEN st ELSE IF MayStart(st, t, b) THEN Start(st, t, b) ELSE st
     IN /\ ok' = (ok /\ s1.cur[t].b = b /\ IF atEnd THEN IsSentinel(file, s1, t) ELSE IsElement(file, s1, t, e))
        /\ st' = IF atEnd THEN VisitSentinel(s1, t, f) ELSE VisitElement(s1, t, f)
        /\ terr' = [terr EXCEPT ![t] = @ \/ f]
        /\ work' = IF atEnd \/ f THEN [work EXCEPT ![t] = 0] ELSE work
        /\ at' = [at EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<file, fails, next, queue, phase, result>>
Join == /\ phase = "join" /\ \A t \in Threads : work[t] = 0
        /\ phase' = "done" /\ result' = IF \E t \in Threads : terr[t] THEN "err" ELSE "ok"
        /\ UNCHANGED <<file, fails, next, queue, work, at, terr, st, ok>>
Step == Submit \/ Drain \/ Join \/ \E t \in Threads : Take(t) \/ Visit(t)
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Explained == ok
Result == phase = "done" => ResultOk(file, st, result)
FailureReported == (phase = "done" /\ fails = {}) => result = "ok"
Terminates == <>(phase = "done")
=============================================================================
