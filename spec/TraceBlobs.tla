----------------------------- MODULE TraceBlobs -----------------------------
(* One file, damaged in many ways and read in every way. The trace has the facts about its blobs       *)
(* (PbfDamage.tla) and els, for each blob its elements in key form (nothing for a header). ev is one     *)
(* event per damaged copy: dmg, the blobs that are different there, as [at, blob]; free, 0 or the first    *)
(* blob in which or behind which bytes were changed at random; and what each way of reading came to.       *)
EXTENDS PbfDamage, TraceLib, SequencesExt
VARIABLES tid, pos
vars == <<tid, pos>>
T == Traces[tid]
Ev == T.ev[pos + 1]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0

N == Len(T.els)
(* the blobs of a copy that cannot be read, and the last one that can be found *)
BadOf(e) == {e.dmg[i].at : i \in {i \in DOMAIN e.dmg : Bad(e.dmg[i].blob)}} \cup (IF e.free = 0 THEN {} ELSE {e.free})
ReachOf(e) ==
  LET L == {e.dmg[i].at : i \in {i \in DOMAIN e.dmg : e.dmg[i].blob.read = "frame"}}
  IN IF L = {} THEN N ELSE FirstBad(L, N) - 1
Fails(r) == r \in {"err", "panic"}
Content(k) == FoldLeft(LAMBDA a, x : a \o x, <<>>, SubSeq(T.els, 1, k))
(* the elements of the blobs that can be read *)
Sound(bad, n) == FoldLeft(LAMBDA a, i : IF i \in bad THEN a ELSE a \o T.els[i], <<>>, [i \in 1..n |-> i])
SeqOk(bad, o) ==
  LET f == FirstBad(bad, N)
  IN /\ o.r \in {"ok", "err", "panic"}
     /\ (o.r = "ok") = (f = N + 1)
     /\ IF o.r = "ok" THEN o.els = Content(N) ELSE \E j \in 0..(f - 1) : o.els = Content(j)
BlocksOk(bad, o) ==
  LET f == FirstBad(bad, N)
  IN /\ o.r \in {"ok", "err", "panic"}
     /\ (o.r = "ok") = (f = N + 1)
     /\ Len(o.blocks) <= f - 1 /\ \A i \in 1..Len(o.blocks) : o.blocks[i] = T.els[i]
     /\ o.r = "ok" => Len(o.blocks) = N
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
ParOk(bad, reach, o) ==
  LET all == Sound(bad, reach)
      got == SelectSeq(o.els, LAMBDA e : e[1] # 4)
  IN /\ o.r \in {"ok", "err"}
     /\ (o.r = "ok") = (bad = {})
     /\ 1 \in bad => o.els = <<>>
     /\ o.r = "ok" => Len(got) = Len(all)
     /\ \A x \in SeqRange(got) : Occ(got, x) <= Occ(all, x)
TypeCount(s, t) == Cardinality({i \in DOMAIN s : s[i][1] = t})
CountOk(bad, o) ==
  LET all == Content(N)
  IN /\ o.r \in {"ok", "err"}
     /\ (o.r = "ok") = (bad = {})
     /\ o.r = "ok" => o.c = <<TypeCount(all, 1), TypeCount(all, 2), TypeCount(all, 3)>>
BoxOk(bad, o) ==
  /\ o.r \in {"ok", "err"}
  /\ (o.r = "ok") = (bad = {} /\ TypeCount(Content(N), 1) > 0)
(* bytes changed at random: every way of reading ends, and what was there before comes first *)
Starts(s, p) == IF Len(p) > Len(s) THEN FALSE ELSE SubSeq(s, 1, Len(p)) = p
FreeOk(e) ==
  LET before == Content(e.free - 1)
  IN /\ e.elements.r \in {"ok", "err", "panic"} /\ e.blocks.r \in {"ok", "err", "panic"}
     /\ e.parallel.r \in {"ok", "err"} /\ e.count.r \in {"ok", "err"} /\ e.bbox.r \in {"ok", "err"}
     /\ e.free > 1 => \/ Starts(e.elements.els, before)
                      \/ e.elements.r # "ok" /\ \E j \in 0..(e.free - 1) : e.elements.els = Content(j)
     /\ \A i \in DOMAIN e.blocks.blocks : i < e.free => e.blocks.blocks[i] = T.els[i]
Read == /\ pos < Len(T.ev)
        /\ LET e == Ev
               bad == BadOf(e)
           IN IF e.free # 0 THEN TRUE = FreeOk(e)
              ELSE /\ TRUE = SeqOk(bad, e.elements)
                   /\ TRUE = BlocksOk(bad, e.blocks)
                   /\ TRUE = ParOk(bad, ReachOf(e), e.parallel)
                   /\ TRUE = CountOk(bad, e.count)
                   /\ TRUE = BoxOk(bad, e.bbox)
        /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Spec == Init /\ [][Read]_vars
Total(t) == Len(t.ev)
Post == Verdict(Total)
=============================================================================
