-------------------------- MODULE ParallelWriterMC --------------------------
(* All interleavings of the pipeline for small programs: a caller (the user's thread), the       *)
(* ordering thread, encoding threads and the writing thread, connected by bounded queues, with    *)
(* a disk that may start to fail at any write. Closing joins the stages one after another.        *)
EXTENDS ParallelWriter, TLC
CONSTANTS BufSize, BlkSize, NEnc, QSize, Faulty, Shape
VARIABLES prog, cmds, phase, inq, ost, sent, encq, enc, wq, held, nxt, disk, werr, broken, result
vars == <<prog, cmds, phase, inq, ost, sent, encq, enc, wq, held, nxt, disk, werr, broken, result>>

N(i) == <<1, i, 1, "">>
Wy(i) == <<2, i, 1, "">>
S == <<4, 0, 0, "">>
Add(e) == [k |-> "add", es |-> <<e>>]
Batch(es) == [k |-> "batch", es |-> es]
Perms(T) == {f \in [1..Cardinality(T) -> T] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}
Singles(p) == [i \in DOMAIN p |-> Add(p[i])]
Programs ==
  IF Shape = "singles" THEN {Singles(p) : p \in Perms({N(1), N(2), N(3), Wy(1)})} \cup {<<Add(N(1)), Add(S), Add(N(1)), Add(Wy(1))>>}
  ELSE IF Shape = "batches" THEN
    UNION {{<<Batch(SubSeq(p, 1, k)), Batch(SubSeq(p, k + 1, 4))>>, <<Add(p[1]), Batch(SubSeq(p, 2, k)), Batch(SubSeq(p, k + 1, 4) \o <<S>>)>>} : p \in Perms({N(1), N(2), N(3), Wy(1)}), k \in 1..3}
  ELSE {Singles(p) : p \in Perms({N(1), N(2), N(3), Wy(1), Wy(2)})}

Init ==
  /\ prog \in Programs
  /\ cmds = prog /\ phase = "open" /\ inq = <<>> /\ ost = EmptyBuffer /\ sent = 0 /\ encq = <<>>
  /\ enc = [w \in 1..NEnc |-> 0] /\ wq = <<>> /\ held = {} /\ nxt = 1 /\ disk = <<>>
  /\ werr = FALSE /\ broken = FALSE /\ result = "none"

Full(q) == Len(q) >= QSize
Submit == /\ phase = "open" /\ prog # <<>> /\ ~Full(inq)
          /\ inq' = Append(inq, prog[1]) /\ prog' = Tail(prog)
          /\ UNCHANGED <<cmds, phase, ost, sent, encq, enc, wq, held, nxt, disk, werr, broken, result>>
(* close: a flush command goes through the queue, then the stages are joined *)
StartClose == /\ phase = "open" /\ prog = <<>> /\ ~Full(inq)
              /\ inq' = Append(inq, [k |-> "flush", es |-> <<>>]) /\ phase' = "join-ordering"
              /\ UNCHANGED <<prog, cmds, ost, sent, encq, enc, wq, held, nxt, disk, werr, broken, result>>
(* blocks that the ordering thread has cut but not yet passed on; it is busy until they are *)
Unsent == Len(ost.out) - sent
Order == /\ inq # <<>> /\ Unsent = 0
         /\ inq' = Tail(inq)
         /\ ost' = IF inq[1].k = "flush" THEN FlushAll(ost, BlkSize) ELSE Command(ost, inq[1], BufSize, BlkSize)
         /\ UNCHANGED <<prog, cmds, phase, sent, encq, enc, wq, held, nxt, disk, werr, broken, result>>
Pass == /\ Unsent > 0 /\ ~Full(encq)
        /\ encq' = Append(encq, sent + 1) /\ sent' = sent + 1
        /\ UNCHANGED <<prog, cmds, phase, inq, ost, enc, wq, held, nxt, disk, werr, broken, result>>
Encode(w) == /\ encq # <<>> /\ enc[w] = 0 /\ \A v \in 1..NEnc : v < w => enc[v] # 0     \* workers are alike
             /\ enc' = [enc EXCEPT ![w] = encq[1]] /\ encq' = Tail(encq)
             /\ UNCHANGED <<prog, cmds, phase, inq, ost, sent, wq, held, nxt, disk, werr, broken, result>>
Encoded(w) == /\ enc[w] # 0 /\ ~Full(wq)
              /\ wq' = Append(wq, enc[w]) /\ enc' = [enc EXCEPT ![w] = 0]
              /\ UNCHANGED <<prog, cmds, phase, inq, ost, sent, encq, held, nxt, disk, werr, broken, result>>
RECURSIVE Run(_, _)
Run(h, n) == IF n \in h THEN Run(h, n + 1) ELSE n             \* first number that is missing
Write == /\ wq # <<>>
         /\ wq' = Tail(wq)
         /\ LET h == held \cup {wq[1]}
                m == Run(h, nxt)
            IN IF werr THEN UNCHANGED <<disk, nxt, held, werr>>             \* nothing can follow a lost blob
               ELSE IF ~broken
               THEN /\ disk' = disk \o SubSeq(ost.out, nxt, m - 1) /\ nxt' = m /\ held' = {i \in h : i >= m}
                    /\ UNCHANGED werr
               ELSE /\ werr' = (nxt \in h) /\ held' = IF nxt \in h THEN {} ELSE h
                    /\ UNCHANGED <<disk, nxt>>
         /\ UNCHANGED <<prog, cmds, phase, inq, ost, sent, encq, enc, broken, result>>
DiskFails == /\ Faulty /\ ~broken /\ result = "none" /\ broken' = TRUE
             /\ UNCHANGED <<prog, cmds, phase, inq, ost, sent, encq, enc, wq, held, nxt, disk, werr, result>>
JoinOrdering == /\ phase = "join-ordering" /\ inq = <<>> /\ Unsent = 0 /\ phase' = "join-encoding"
                /\ UNCHANGED <<prog, cmds, inq, ost, sent, encq, enc, wq, held, nxt, disk, werr, broken, result>>
JoinEncoding == /\ phase = "join-encoding" /\ encq = <<>> /\ (\A w \in 1..NEnc : enc[w] = 0) /\ phase' = "join-writing"
                /\ UNCHANGED <<prog, cmds, inq, ost, sent, encq, enc, wq, held, nxt, disk, werr, broken, result>>
JoinWriting == /\ phase = "join-writing" /\ wq = <<>> /\ phase' = "closed"
               /\ result' = IF ost.ok /\ ~werr THEN "ok" ELSE "err"
               /\ UNCHANGED <<prog, cmds, inq, ost, sent, encq, enc, wq, held, nxt, disk, werr, broken>>
Step == Submit \/ StartClose \/ Order \/ Pass \/ (\E w \in 1..NEnc : Encode(w) \/ Encoded(w)) \/ Write
        \/ JoinOrdering \/ JoinEncoding \/ JoinWriting
Next == Step \/ DiskFails
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

DiskSorted == IsSortedKeys(Concat(disk))
DiskBlocks == BlocksOk(disk, BlkSize)
DiskPrefix == disk = SubSeq(ost.out, 1, Len(disk))
Given == Elements(cmds)
NothingInvented == PartOf(Concat(disk), Given)
OkComplete == result = "ok" => SameBag(Concat(disk), Given)
ErrExactly == (result # "none" /\ ~broken) => (result = "ok" <=> Restorable(cmds, BufSize, BlkSize))
ErrIfBroken == (result # "none" /\ werr) => result = "err"
NothingHeldInVain == werr => held = {}
BufferBounded == Len(ost.buf) <= BufSize
Terminates == <>(phase = "closed")

(* how far out of order an input may be: if no element comes after more than w elements that are  *)
(* greater, and no more than w elements that are smaller come after it, a buffer of that size      *)
(* restores it *)
Displaced(p) == LET d(i) == Cardinality({j \in 1..(i - 1) : KeyLt(p[i], p[j])})
                IN CHOOSE m \in 0..Len(p) : (\A i \in DOMAIN p : d(i) <= m) /\ (m = 0 \/ \E i \in DOMAIN p : d(i) = m)
Big == {N(i) : i \in 1..6}
ASSUME Window == \A p \in Perms(Big) : \A blk \in 1..3 : \A b \in blk..6 :
   (Displaced(p) + blk <= b + 1 \/ Len(p) <= b) => Restorable(Singles(p), b, blk)
=============================================================================
