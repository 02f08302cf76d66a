---------------------------- MODULE PbfDamageMC ----------------------------
(* Readers of a file some of whose blobs cannot be read, for all small files, all damage and all        *)
(* interleavings. Blobs: "d" data, "h" a header in between, "x" damaged so that decoding returns an      *)
(* error, "p" damaged so that decoding panics, "l" nothing can be found from here on. The sequential      *)
(* reader panics or fails at the first of them. The parallel reader: the caller looks for blobs and puts   *)
(* them in a bounded queue, notes an error in looking and goes no further, waits for the queue to drain,    *)
(* then for the threads. A thread reports the last error it saw. Catches: whether a thread survives a        *)
(* panic; if it does not, the queue of a pool that has lost all its threads never drains (Terminates fails:  *)
(* this is how the library was).                                                                              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Threads, QSize, MaxBlobs, Catches
VARIABLES file, spos, sst, sout, next, lost, queue, work, alive, terr, phase, result, pout
vars == <<file, spos, sst, sout, next, lost, queue, work, alive, terr, phase, result, pout>>
Kinds == {"d", "h", "x", "p", "l"}
N == Len(file)
BadAt == {i \in 1..N : file[i] \in {"x", "p", "l"}}
First == IF BadAt = {} THEN N + 1 ELSE CHOOSE i \in BadAt : \A j \in BadAt : i <= j
LostAt == {i \in 1..N : file[i] = "l"}
Reach == IF LostAt = {} THEN N ELSE (CHOOSE i \in LostAt : \A j \in LostAt : i <= j) - 1
DataOf(k) == SelectSeq([i \in 1..k |-> i], LAMBDA i : file[i] = "d")
Init ==
  /\ file \in UNION {[1..n -> Kinds] : n \in 0..MaxBlobs}
  /\ spos = 1 /\ sst = "run" /\ sout = <<>>
  /\ next = 1 /\ lost = FALSE /\ queue = <<>> /\ work = [t \in Threads |-> 0] /\ alive = Threads
  /\ terr = [t \in Threads |-> FALSE] /\ phase = "submit" /\ result = "none" /\ pout = {}
(* the sequential reader *)
SStep ==
  /\ sst = "run"
  /\ IF spos > N THEN sst' = "end" /\ UNCHANGED <<spos, sout>>
     ELSE CASE file[spos] = "d" -> sout' = Append(sout, spos) /\ spos' = spos + 1 /\ UNCHANGED sst
            [] file[spos] = "h" -> spos' = spos + 1 /\ UNCHANGED <<sst, sout>>
            [] OTHER -> sst' = "fail" /\ UNCHANGED <<spos, sout>>
  /\ UNCHANGED <<file, next, lost, queue, work, alive, terr, phase, result, pout>>
(* the parallel reader *)
Look ==
  /\ phase = "submit" /\ ~lost /\ next <= N
  /\ IF file[next] = "l" THEN lost' = TRUE /\ UNCHANGED <<next, queue>>
     ELSE Len(queue) < QSize /\ queue' = Append(queue, next) /\ next' = next + 1 /\ UNCHANGED lost
  /\ UNCHANGED <<file, spos, sst, sout, work, alive, terr, phase, result, pout>>
Drain ==
  /\ phase = "submit" /\ (lost \/ next > N) /\ queue = <<>> /\ phase' = "join"
  /\ UNCHANGED <<file, spos, sst, sout, next, lost, queue, work, alive, terr, result, pout>>
Take(t) ==
  /\ t \in alive /\ work[t] = 0 /\ queue # <<>>
  /\ work' = [work EXCEPT ![t] = queue[1]] /\ queue' = Tail(queue)
  /\ UNCHANGED <<file, spos, sst, sout, next, lost, alive, terr, phase, result, pout>>
(* in one step: what other threads see of a block does not matter here *)
Work(t) ==
  /\ work[t] # 0
  /\ LET k == file[work[t]]
     IN /\ pout' = IF k = "d" THEN pout \cup {work[t]} ELSE pout
        /\ terr' = [terr EXCEPT ![t] = @ \/ k \in {"x", "p"}]
        /\ alive' = IF k = "p" /\ ~Catches THEN alive \ {t} ELSE alive
  /\ work' = [work EXCEPT ![t] = 0]
  /\ UNCHANGED <<file, spos, sst, sout, next, lost, queue, phase, result>>
Join ==
  /\ phase = "join" /\ \A t \in Threads : work[t] = 0
  /\ phase' = "done" /\ result' = IF lost \/ \E t \in Threads : terr[t] THEN "err" ELSE "ok"
  /\ UNCHANGED <<file, spos, sst, sout, next, lost, queue, work, alive, terr, pout>>
Step == SStep \/ Look \/ Drain \/ Join \/ \E t \in Threads : Take(t) \/ Work(t)
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
(* what TraceBlobs demands *)
Prefix == \E j \in 0..(First - 1) : sout = DataOf(j)
SeqEnds == /\ sst = "end" => First = N + 1 /\ sout = DataOf(N)
           /\ sst = "fail" => First <= N
Undamaged == pout \subseteq {i \in 1..Reach : file[i] = "d"}
ParEnds ==
  phase = "done" =>
    /\ (result = "ok") = (First = N + 1)
    /\ result = "ok" => pout = {i \in 1..N : file[i] = "d"}
Terminates == <>(phase = "done") /\ <>(sst \in {"end", "fail"})
=============================================================================
