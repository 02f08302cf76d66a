---------------------------- MODULE TraceStream ----------------------------
(* One file cut at many positions and read in every way. The trace has ends (of blobs), known     *)
(* (whether the format knows the type of the blob) and els, for each blob its elements in key      *)
(* form (nothing for the header and for blobs that are not known); ev is one event per cut with the observation of each way of reading: r (how it ended: ok, err, panic, hang) and   *)
(* what it delivered.                                                                            *)
EXTENDS PbfStream, OsmModel, TraceLib, SequencesExt
VARIABLES tid, pos
vars == <<tid, pos>>
T == Traces[tid]
Ev == T.ev[pos + 1]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0

Fails(r) == r \in {"err", "panic"}
Content(k) == FoldLeft(LAMBDA a, x : a \o x, <<>>, SubSeq(T.els, 1, k))   \* elements of the first k blobs
Here(c) == KnownTo(T.known, Complete(T.ends, c))
Opens(c) == Len(Here(c)) >= 1
(* sequential reading: complete blocks in order, then a clean end or a failure *)
SeqOk(c, o) ==
  LET k == Complete(T.ends, c)
  IN /\ Opens(c) \/ (Fails(o.r) /\ o.els = <<>>)
     /\ o.r \in {"ok", "err", "panic"}
     /\ o.r = "ok" => Boundary(T.ends, c) /\ o.els = Content(k)
     /\ \E j \in 0..k : o.els = Content(j)
BlocksOk(c, o) ==
  LET h == Here(c)
  IN /\ Opens(c) \/ (Fails(o.r) /\ o.blocks = <<>>)
     /\ o.r \in {"ok", "err", "panic"}
     /\ o.r = "ok" => Boundary(T.ends, c) /\ Len(o.blocks) = Len(h)
     /\ Len(o.blocks) <= Len(h) /\ \A i \in 1..Len(o.blocks) : o.blocks[i] = T.els[h[i]]
(* parallel reading: every element of the complete blocks once, or a failure (an error, never a panic) *)
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
ParOk(c, o) ==
  LET k == Complete(T.ends, c)
      all == Content(k)
      got == SelectSeq(o.els, LAMBDA e : e[1] # 4)
  IN /\ o.r \in {"ok", "err"}
     /\ Opens(c) \/ (o.r = "err" /\ o.els = <<>>)
     /\ o.r = "ok" => Boundary(T.ends, c) /\ Len(got) = Len(all) /\ Len(o.els) - Len(got) = Len(Here(c)) - 1
     /\ \A x \in SeqRange(got) : Occ(got, x) <= Occ(all, x)
TypeCount(s, t) == Cardinality({i \in DOMAIN s : s[i][1] = t})
CountOk(c, o) ==
  LET all == Content(Complete(T.ends, c))
  IN /\ o.r \in {"ok", "err"}
     /\ Opens(c) \/ o.r = "err"
     /\ o.r = "ok" => Boundary(T.ends, c) /\ o.c = <<TypeCount(all, 1), TypeCount(all, 2), TypeCount(all, 3)>>
BoxOk(c, o) ==
  /\ o.r \in {"ok", "err"}
  /\ o.r = "ok" => Opens(c) /\ Boundary(T.ends, c) /\ TypeCount(Content(Complete(T.ends, c)), 1) > 0
Cut == /\ pos < Len(T.ev)
       /\ TRUE = SeqOk(Ev.at, Ev.elements)
       /\ TRUE = BlocksOk(Ev.at, Ev.blocks)
       /\ TRUE = ParOk(Ev.at, Ev.parallel)
       /\ TRUE = CountOk(Ev.at, Ev.count)
       /\ TRUE = BoxOk(Ev.at, Ev.bbox)
       /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Next == Cut
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.ev)
Post == Verdict(Total)
=============================================================================
