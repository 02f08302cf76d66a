---------------------------- MODULE TracePWriter ----------------------------
(* Observations of the parallel writer. T = [buf, blk, faulty, order, window, ev]:               *)
(*   faulty: the disk was made to fail; order: "known" if the calls came from one thread;          *)
(*   window: no element comes after a greater one that is window or more places before it          *)
(*           (claimed by the generator and verified here), or -1                                   *)
(* Events: [k |-> "hdr" / "close" / "iter", r], [k |-> "adds", es, r] (one call per element),      *)
(*   [k |-> "batch", es, r] (one call), [k |-> "disk", blocks, tail] what the finished file holds,  *)
(*   decoded independently: its complete blobs, and whether anything else follows ("clean"),        *)
(*   [k |-> "frames", fr]  the blobs of the file.                                                    *)
EXTENDS ParallelWriter, PbfStream, TraceLib
VARIABLES tid, pos, given, cmds, erred, closed
vars == <<tid, pos, given, cmds, erred, closed>>
T == Traces[tid]
Ev == T.ev[pos + 1]
ASSUME ResetProgress
SmallLimit == 60
Init == tid \in 1..NTraces /\ pos = 0 /\ given = <<>> /\ cmds = <<>> /\ erred = FALSE /\ closed = "no"
At(k) == pos < Len(T.ev) /\ Ev.k = k
Adv == pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid

(* no call may panic or block; errors only if there is a reason *)
Result(r) == r = "ok" \/ r = "err"
Hdr == /\ At("hdr") /\ closed = "no" /\ (IF T.faulty THEN Result(Ev.r) ELSE Ev.r = "ok")
       /\ erred' = (erred \/ Ev.r = "err") /\ UNCHANGED <<given, cmds, closed>> /\ Adv
Small == T.n <= SmallLimit
Add == /\ At("adds") \/ At("batch")
       /\ closed = "no" /\ (IF T.faulty THEN Result(Ev.r) ELSE Ev.r = "ok")
       /\ given' = given \o Ev.es
       /\ cmds' = IF ~Small THEN <<>>
                  ELSE cmds \o IF Ev.k = "batch" THEN <<[k |-> "batch", es |-> Ev.es]>>
                               ELSE [i \in DOMAIN Ev.es |-> [k |-> "add", es |-> <<Ev.es[i]>>]]
       /\ erred' = (erred \/ Ev.r = "err") /\ UNCHANGED closed /\ Adv
Iter == At("iter") /\ Ev.r = "ok" /\ UNCHANGED <<given, cmds, erred, closed>> /\ Adv

Real == SelectSeq(given, LAMBDA e : e[1] # 4)
(* greatest of the elements that are window or more places before element i, for increasing i *)
MaxOf(a, b) == IF KeyLt(a, b) THEN b ELSE a
WindowOk(s, w) ==
  LET step(st, i) == IF ~st.ok THEN st
                     ELSE IF i <= w THEN st
                     ELSE LET m == IF st.m = <<>> THEN <<s[i - w]>> ELSE <<MaxOf(st.m[1], s[i - w])>>
                          IN [ok |-> KeyLeq(m[1], s[i]), m |-> m]
  IN FoldLeft(step, [ok |-> TRUE, m |-> <<>>], [i \in 1..Len(s) |-> i]).ok
MustSucceed ==
  /\ ~T.faulty
  /\ \/ Len(Real) <= T.buf
     \/ T.order = "known" /\ \/ IsSortedKeys(Real)
                             \/ Small /\ Restorable(cmds, T.buf, T.blk)
                             \/ T.window >= 0 /\ T.window - 1 + T.blk <= T.buf + 1 /\ WindowOk(Real, T.window)
Close == /\ At("close") /\ closed = "no" /\ Result(Ev.r)
         /\ (IF Ev.r = "err" THEN ~MustSucceed ELSE TRUE)
         /\ closed' = Ev.r /\ UNCHANGED <<given, cmds, erred>> /\ Adv
(* a writer that is used after closing answers, and what it wrote stays *)
AfterClose == /\ At("hdr") \/ At("adds") \/ At("batch") \/ At("close")
              /\ closed # "no" /\ Result(Ev.r) /\ UNCHANGED <<given, cmds, erred, closed>> /\ Adv

Distinct(s) == Cardinality(SeqRange(s)) = Len(s)
PartOfFast(s, t) == IF Distinct(s) /\ Distinct(t) THEN SeqRange(s) \subseteq SeqRange(t) ELSE PartOf(s, t)
FastBlocksOk(bs, blk) == \A i \in DOMAIN bs : Len(bs[i]) <= blk /\ \A j \in 1..Len(bs[i]) : bs[i][j][1] = bs[i][1][1]
RECURSIVE Flat(_, _, _)
Flat(bs, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN bs[i] ELSE LET m == (i + j) \div 2 IN Flat(bs, i, m) \o Flat(bs, m + 1, j)
Disk ==
  /\ At("disk") /\ closed # "no"
  /\ TRUE = FastBlocksOk(Ev.blocks, T.blk)
  /\ LET d == Flat(Ev.blocks, 1, Len(Ev.blocks))
         g == Real
     IN /\ TRUE = IsSortedKeys(d)
        /\ TRUE = PartOfFast(d, g)
        /\ TRUE = (IF closed = "ok" /\ ~(erred /\ T.faulty) THEN Len(d) = Len(g) /\ ~erred /\ Ev.tail = "clean" ELSE TRUE)
        /\ TRUE = (IF T.faulty THEN TRUE ELSE Ev.tail = "clean")
  /\ UNCHANGED <<given, cmds, erred, closed>> /\ Adv
Frames == /\ At("frames") /\ Len(Ev.fr) >= 1 /\ TRUE = (\A i \in 1..Len(Ev.fr) : FrameOk(i, Ev.fr[i], T.comp))
          /\ UNCHANGED <<given, cmds, erred, closed>> /\ Adv
Next == Frames \/ Hdr \/ Add \/ Iter \/ Close \/ AfterClose \/ Disk
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.ev)
Post == Verdict(Total)
=============================================================================
