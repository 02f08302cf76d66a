----------------------------- MODULE TraceWire -----------------------------
(* One observation: the wire structure of the data blocks of a file and a list of elements, *)
(* either those given to a writer that produced the file (mode "written") or those that a    *)
(* reader delivered for it (mode "read"). The published format, run as a decoder one element *)
(* at a time, must produce exactly that list. For a reader that delivers block by block,     *)
(* counts has the number of elements of every block.                                         *)
EXTENDS PbfFormat, TraceLib

VARIABLES tid, b, p, regs, k, inblk, phase
vars == <<tid, b, p, regs, k, inblk, phase>>
T == Traces[tid]
Blk == T.blocks[b]

ASSUME ResetProgress
Init == tid \in 1..NTraces /\ b = 1 /\ p = <<1, 1, 1>> /\ regs = Regs0 /\ k = 0 /\ inblk = 0 /\ phase = "run"

Sound == IF T.mode = "written" /\ p = <<1, 1, 1>> THEN WellFormed(Blk) ELSE TRUE
Same(e, d) == IF T.mode = "written" THEN SameWritten(e, d) ELSE SameRead(d, e)
Decode ==
  /\ phase = "run" /\ b <= Len(T.blocks)
  /\ TRUE = Sound
  /\ LET q == NextPos(Blk, p)
     IN /\ ~AtEnd(Blk, q)
        /\ k < Len(T.es)
        /\ LET d == DecodeAt(Blk, regs, q)
           IN Same(T.es[k + 1], d.elem) /\ regs' = d.regs
        /\ p' = Step(q)
  /\ k' = k + 1 /\ inblk' = inblk + 1
  /\ Progress(tid, k + 1)
  /\ UNCHANGED <<tid, b, phase>>
EndBlock ==
  /\ phase = "run" /\ b <= Len(T.blocks)
  /\ TRUE = Sound
  /\ AtEnd(Blk, NextPos(Blk, p))
  /\ IF T.counts = <<>> THEN TRUE ELSE IF b > Len(T.counts[1]) THEN FALSE ELSE T.counts[1][b] = inblk
  /\ b' = b + 1 /\ p' = <<1, 1, 1>> /\ regs' = Regs0 /\ inblk' = 0
  /\ UNCHANGED <<tid, k, phase>>
EndFile ==
  /\ phase = "run" /\ b = Len(T.blocks) + 1 /\ k = Len(T.es)
  /\ T.end = "ok"
  /\ IF T.counts = <<>> THEN TRUE ELSE Len(T.counts[1]) = Len(T.blocks)
  /\ phase' = "done"
  /\ Progress(tid, k + 1)
  /\ UNCHANGED <<tid, b, p, regs, k, inblk>>
Next == Decode \/ EndBlock \/ EndFile
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.es) + 1
Post == Verdict(Total)
=============================================================================
