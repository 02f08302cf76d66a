------------------------------ MODULE TraceSeq ------------------------------
(* Observations of the sequential writer, checked against SeqWriter. Elements are pairs or  *)
(* tuples with the type rank first: <<rank, full record>> or <<rank, id, version, token>>.   *)
(* Events:                                                                                   *)
(*   [k |-> "hdr" / "call" / "close", es, r]  a call and its result                          *)
(*   [k |-> "disk", blocks, tail]  the file after a call, decoded independently: complete    *)
(*                      blocks, and "clean" or "partial" for what follows them               *)
(*   [k |-> "frames", fr]  the blobs of the finished file                                    *)
(*   [k |-> "read", es, r]  what the library's own reader delivers for the finished file     *)
(*   [k |-> "cut", es, r]   what it delivers for the file as a crash would leave it: cut     *)
(*                      anywhere within what the last call has written; lo is the number of  *)
(*                      elements on disk before that call                                    *)
EXTENDS SeqWriter, OsmModel, PbfStream, TraceLib

VARIABLES tid, pos, failed
vars == <<phase, given, pending, blocks, tid, pos, failed>>
T == Traces[tid]
Ev == T.ev[pos + 1]

Same(w, r) == w[1] = r[1] /\ IF T.form = "full" THEN SameStored(w[2], r[2]) ELSE w = r
(* "TRUE = ..." makes TLC evaluate a long conjunction as a value, not as part of an action *)
SameSeq(ws, rs) == TRUE = (Len(ws) = Len(rs) /\ \A i \in 1..Len(rs) : Same(ws[i], rs[i]))
IsPrefixOf(rs, ws) == TRUE = (Len(rs) <= Len(ws) /\ \A i \in 1..Len(rs) : Same(ws[i], rs[i]))

ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0 /\ failed = FALSE /\ SWInit
At(k) == pos < Len(T.ev) /\ Ev.k = k
Adv == pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid

Hdr == At("hdr") /\ Ev.r = "ok" /\ WriteHeader /\ Adv /\ UNCHANGED failed
(* a call is a sequence of Accept steps; what it flushes is seen in the file *)
Call ==
  /\ At("call") /\ phase = "open" /\ ~failed
  /\ TRUE = (\A i \in 1..(Len(Ev.es) - 1) : Ev.es[i][1] <= Ev.es[i + 1][1])
  /\ IF Ev.es = <<>> THEN TRUE ELSE InTypeOrder(Ev.es[1])
  /\ Ev.r = "ok"
  /\ given' = given \o Ev.es /\ pending' = pending \o Ev.es
  /\ UNCHANGED <<phase, blocks, failed>> /\ Adv
(* the file after the call: some sequence of Flush steps leads to it *)
Flat(bs) == FoldFlat(bs)
Disk ==
  /\ At("disk") /\ Ev.tail = "clean" /\ ~failed
  /\ Len(Ev.blocks) >= Len(blocks)
  /\ TRUE = (\A i \in 1..Len(blocks) : Ev.blocks[i] = blocks[i])
  /\ TRUE = (\A i \in 1..Len(Ev.blocks) : Len(Ev.blocks[i]) <= BlockSize /\ OneTypeFast(Ev.blocks[i]))
  /\ LET fl == Flat(Ev.blocks)
     IN /\ IsPrefixOf(fl, given)
        /\ Len(given) - Len(fl) <= (IF phase = "closed" THEN 0 ELSE BlockSize)
        /\ pending' = SubSeq(given, Len(fl) + 1, Len(given))
  /\ blocks' = Ev.blocks
  /\ UNCHANGED <<phase, given, failed>> /\ Adv
(* closing: everything pending is flushed *)
CloseEv ==
  /\ At("close") /\ ~failed
  /\ IF phase = "closed" THEN Ev.r \in {"ok", "err"} ELSE phase = "open" /\ Ev.r = "ok"     \* closing again is nothing
  /\ phase' = "closed" /\ pending' = <<>>
  /\ UNCHANGED <<given, blocks, failed>> /\ Adv
Read ==
  /\ At("read") /\ phase = "closed" /\ Ev.r = "ok"
  /\ SameSeq(given, Ev.es)
  /\ UNCHANGED <<phase, given, pending, blocks, failed>> /\ Adv
Cut ==
  /\ At("cut")
  /\ IsPrefixOf(Ev.es, given) /\ Len(Ev.es) >= Ev.lo
  /\ UNCHANGED <<phase, given, pending, blocks, failed>> /\ Adv
Frames ==
  /\ At("frames") /\ Len(Ev.fr) >= 1 /\ TRUE = (\A i \in 1..Len(Ev.fr) : FrameOk(i, Ev.fr[i], T.comp))
  /\ UNCHANGED <<phase, given, pending, blocks, failed>> /\ Adv
(* a failing disk: some call reports it, after which nothing is promised *)
Fail ==
  /\ pos < Len(T.ev) /\ T.faulty /\ Ev.k \in {"hdr", "call", "close"} /\ Ev.r = "err"
  /\ failed' = TRUE
  /\ UNCHANGED <<phase, given, pending, blocks>> /\ Adv
AfterFail ==
  /\ pos < Len(T.ev) /\ failed
  /\ Ev.k \in {"hdr", "call", "close"} => Ev.r \in {"ok", "err", "panic"}
  /\ UNCHANGED <<phase, given, pending, blocks, failed>> /\ Adv
Next == Hdr \/ Call \/ Disk \/ CloseEv \/ Read \/ Cut \/ Frames \/ Fail \/ AfterFail
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.ev)
Post == Verdict(Total)
=============================================================================
