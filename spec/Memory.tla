------------------------------ MODULE Memory ------------------------------
(* Where elements can be while they pass through the library: bounded queues and buffers, so that the   *)
(* number held at a time does not depend on how many there are.                                          *)
(* A chain of stages: a producer, a queue of at most Queue items of Batch elements, an ordering buffer     *)
(* of at most Buf elements (plus the batch that is added), a queue of at most Queue blocks of at most       *)
(* Block elements, Workers that each hold one block, a queue of at most Queue blobs, and the blobs that      *)
(* wait for one before them: at most Skew, the number of blocks workers may be ahead of the slowest.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Total, Batch, Queue, Buf, Block, Workers, Skew
VARIABLES made, q1, buf, cut, q2, at, q3, done, next
vars == <<made, q1, buf, cut, q2, at, q3, done, next>>

(* The most elements a parallel writer holds. *)
WriterMost(batch, queue, buffer, block, workers, skew) ==
  (queue + 2) * batch + buffer + (queue + workers + 1) * block + (queue + 1 + skew) * block
(* The most a sequential reader or writer holds: a block, in a few forms. *)
SequentialMost(block, forms) == forms * block
(* The most a parallel iteration holds: one block for every task. *)
IterationMost(block, forms, tasks) == forms * block * tasks

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s)[2] + Sum(Tail(s))
RECURSIVE SumSet(_)
SumSet(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumSet(S \ {x})
Ids(s) == {s[i][1] : i \in DOMAIN s}

Init == made = 0 /\ q1 = <<>> /\ buf = 0 /\ cut = 0 /\ q2 = <<>> /\ at = {} /\ q3 = <<>> /\ done = {} /\ next = 1
Min(a, b) == IF a < b THEN a ELSE b
Produce == made < Total /\ Len(q1) < Queue /\ LET n == Min(Batch, Total - made) IN made' = made + n /\ q1' = Append(q1, <<0, n>>) /\ UNCHANGED <<buf, cut, q2, at, q3, done, next>>
(* the ordering thread takes a batch, and cuts one block off when its buffer is over its size *)
Add ==
  /\ q1 # <<>> /\ buf <= Buf
  /\ buf' = buf + Head(q1)[2] /\ q1' = Tail(q1) /\ UNCHANGED <<made, cut, q2, at, q3, done, next>>
Cut ==
  /\ (buf > Buf \/ (made = Total /\ q1 = <<>> /\ buf > 0)) /\ Len(q2) < Queue
  /\ LET n == Min(Block, buf) IN buf' = buf - n /\ q2' = Append(q2, <<cut + 1, n>>)
  /\ cut' = cut + 1 /\ UNCHANGED <<made, q1, at, q3, done, next>>
Take == Cardinality(at) < Workers /\ q2 # <<>> /\ at' = at \cup {Head(q2)} /\ q2' = Tail(q2) /\ UNCHANGED <<made, q1, buf, cut, q3, done, next>>
Encode == \E b \in at :
  /\ Len(q3) < Queue /\ at' = at \ {b} /\ q3' = Append(q3, b)
  (* how far ahead of the slowest worker the others get *)
  /\ \A c \in at : b[1] <= c[1] + Skew
  /\ UNCHANGED <<made, q1, buf, cut, q2, done, next>>
Arrive == q3 # <<>> /\ done' = done \cup {Head(q3)} /\ q3' = Tail(q3) /\ UNCHANGED <<made, q1, buf, cut, q2, at, next>>
Write == \E b \in done : b[1] = next /\ done' = done \ {b} /\ next' = next + 1 /\ UNCHANGED <<made, q1, buf, cut, q2, at, q3>>
Next == Produce \/ Add \/ Cut \/ Take \/ Encode \/ Arrive \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inside == Sum(q1) + buf + Sum(q2) + SumSet(at) + Sum(q3) + SumSet(done)
Bounded == Inside <= WriterMost(Batch, Queue, Buf, Block, Workers, Skew)
Finished == made = Total /\ Inside = 0
AllWritten == <>Finished
=============================================================================
