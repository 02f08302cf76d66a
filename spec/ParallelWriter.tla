--------------------------- MODULE ParallelWriter ---------------------------
(* The parallel writer. Calls become commands: [k |-> "add", es |-> <<e>>] or                  *)
(* [k |-> "batch", es]. One ordering thread keeps a buffer of elements in OSM order; as long as  *)
(* it holds more than bufsize elements after a command, the smallest go out as a block of one    *)
(* type with at most blksize elements. An element smaller than one that has gone out has lost    *)
(* its place: it is dropped and closing will report it. Blocks are numbered, encoded             *)
(* concurrently and written in the order of their numbers.                                       *)
(* Elements are in key form <<rank, id, version, content>>; rank 4 is the sentinel.              *)
EXTENDS OsmModel, SequencesExt, FiniteSets

EmptyBuffer == [buf |-> <<>>, out |-> <<>>, last |-> <<>>, ok |-> TRUE, skip |-> FALSE]
Insert(s, e) == SelectSeq(s, LAMBDA x : ~KeyLt(e, x)) \o <<e>> \o SelectSeq(s, LAMBDA x : KeyLt(e, x))
Fits(last, e) == IF last = <<>> THEN TRUE ELSE KeyLeq(last[1], e)
Put(st, e) ==
  IF e[1] = 4 \/ st.skip THEN st
  ELSE IF Fits(st.last, e) THEN [st EXCEPT !.buf = Insert(@, e)]
  ELSE [st EXCEPT !.ok = FALSE, !.skip = TRUE]      \* the rest of the command is lost with it
BlockLen(s, blk) ==
  LET n == IF Len(s) < blk THEN Len(s) ELSE blk
  IN CHOOSE k \in 0..n : /\ \A i \in 1..k : s[i][1] = s[1][1]
                         /\ k < n => s[k + 1][1] # s[1][1]
FlushTop(st, blk) ==
  LET k == BlockLen(st.buf, blk)
  IN IF k = 0 THEN st
     ELSE [st EXCEPT !.buf = SubSeq(@, k + 1, Len(@)), !.out = Append(@, SubSeq(st.buf, 1, k)), !.last = <<st.buf[k]>>]
RECURSIVE FlushOver(_, _, _)
FlushOver(st, bufsize, blk) == IF Len(st.buf) <= bufsize THEN st ELSE FlushOver(FlushTop(st, blk), bufsize, blk)
Command(st, c, bufsize, blk) ==
  FlushOver([FoldLeft(Put, st, c.es) EXCEPT !.skip = FALSE], bufsize, blk)
RECURSIVE FlushAll(_, _)
FlushAll(st, blk) == IF st.buf = <<>> THEN st ELSE FlushAll(FlushTop(st, blk), blk)

(* the order of the commands is one that the ordering buffer can restore *)
Restorable(cmds, bufsize, blk) == FoldLeft(LAMBDA st, c : Command(st, c, bufsize, blk), EmptyBuffer, cmds).ok

(* properties of the blocks of a file *)
Elements(cmds) == SelectSeq(FoldLeft(LAMBDA a, c : a \o c.es, <<>>, cmds), LAMBDA e : e[1] # 4)
Concat(bs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, bs)
BlocksOk(bs, blk) == \A i \in DOMAIN bs : Len(bs[i]) <= blk /\ \A j \in 1..(Len(bs[i]) - 1) : bs[i][j][1] = bs[i][j + 1][1]
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* long sequences are compared as sorted sequences; KeyTotal also orders by content *)
PartOf(s, t) == \A x \in SeqRange(s) : Occ(s, x) <= Occ(t, x)
SameBag(s, t) == Len(s) = Len(t) /\ PartOf(s, t)
=============================================================================
