---------------------------- MODULE TraceHeader ----------------------------
(* Observations of headers. Events:                                                           *)
(*   [k |-> "info", h]      a file was written for this file information                       *)
(*   [k |-> "new", p]       a file was written by a writer made from these parameters          *)
(*   [k |-> "given", h]     a file with this header came from elsewhere                        *)
(*   [k |-> "bytes", h]     the header on disk, decoded independently                          *)
(*   [k |-> "open", r, h]   opening the file: ok and the information read, or an error         *)
(*   [k |-> "block", h]     the header as delivered by the block iterator                      *)
(* Texts are hexadecimal tokens except feature names; numbers are wide.                        *)
EXTENDS Header, TraceLib
VARIABLES tid, pos, hdr
vars == <<tid, pos, hdr>>
T == Traces[tid]
Ev == T.ev[pos + 1]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0 /\ hdr = <<>>
At(k) == pos < Len(T.ev) /\ Ev.k = k
Adv == pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Info == (At("info") \/ At("given")) /\ hdr' = <<Ev.h>> /\ Adv
New == At("new") /\ hdr' = <<NewHeader(Ev.p)>> /\ Adv
Seen == (At("bytes") \/ At("block")) /\ hdr = <<Ev.h>> /\ UNCHANGED hdr /\ Adv
Opened == At("open") /\ CanOpen(hdr[1]) /\ Ev.r = "ok" /\ hdr = <<Ev.h>> /\ UNCHANGED hdr /\ Adv
Refused == At("open") /\ ~CanOpen(hdr[1]) /\ Ev.r = "err" /\ UNCHANGED hdr /\ Adv
Next == Info \/ New \/ Seen \/ Opened \/ Refused
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.ev)
Post == Verdict(Total)
=============================================================================
