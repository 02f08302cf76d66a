----------------------------- MODULE TraceCount -----------------------------
(* Observations of counting and bounding boxes. Events:                                        *)
(*   [k |-> "block", n, w, r, pts, bb]  a data block of the file; bb: zero or one box option     *)
(*                     computed for that block alone                                             *)
(*   [k |-> "count", r, c]  [k |-> "bbox", r, b]  results for the whole file                     *)
(*   [k |-> "pt", p]  [k |-> "box", b]  [k |-> "mem", b]  merging in memory, and the result       *)
EXTENDS Summary, TraceLib
VARIABLES tid, pos, n, w, r, box
vars == <<tid, pos, n, w, r, box>>
T == Traces[tid]
Ev == T.ev[pos + 1]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0 /\ n = 0 /\ w = 0 /\ r = 0 /\ box = <<>>
At(k) == pos < Len(T.ev) /\ Ev.k = k
Adv == pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Block == /\ At("block")
         /\ LET b == BoxOfPointsFast(Ev.pts)
            IN /\ IF Ev.bb = <<>> THEN TRUE ELSE Ev.bb[1] = b
               /\ box' = AddBox(box, b)
         /\ n' = n + Ev.n /\ w' = w + Ev.w /\ r' = r + Ev.r /\ Adv
CountEv == At("count") /\ Ev.r = "ok" /\ Ev.c = <<n, w, r>> /\ UNCHANGED <<n, w, r, box>> /\ Adv
BoxEv == At("bbox") /\ (IF box = <<>> THEN Ev.r = "err" ELSE Ev.r = "ok" /\ Ev.b = box) /\ UNCHANGED <<n, w, r, box>> /\ Adv
Pt == At("pt") /\ box' = AddPoint(box, Ev.p) /\ UNCHANGED <<n, w, r>> /\ Adv
BoxOp == At("box") /\ box' = AddBox(box, <<Ev.b>>) /\ UNCHANGED <<n, w, r>> /\ Adv
Mem == At("mem") /\ Ev.b = box /\ UNCHANGED <<n, w, r, box>> /\ Adv
Next == Block \/ CountEv \/ BoxEv \/ Pt \/ BoxOp \/ Mem
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.ev)
Post == Verdict(Total)
=============================================================================
