----------------------------- MODULE TraceIters -----------------------------
(* Interleaved use of iterators over real files or dumps (one block each): files (blocks of elements in key form), ops    *)
(* as given to the driver and out, what each returned.                                           *)
EXTENDS Iters, TraceLib
VARIABLES tid, pos, its, readers
vars == <<tid, pos, its, readers>>
T == Traces[tid]
Op == T.ops[pos + 1]
Out == T.out[pos + 1]
ASSUME ResetProgress
Ids == 0..15
Init == tid \in 1..NTraces /\ pos = 0 /\ its = [i \in Ids |-> <<>>] /\ readers = [i \in Ids |-> 0]
At(k) == pos < Len(T.ops) /\ pos < Len(T.out) /\ Op[1] = k
Adv == pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
F(r) == T.files[readers[r]]
ReaderOp == At("reader") /\ Out = [ok |-> TRUE] /\ readers' = [readers EXCEPT ![Op[2]] = Op[3] + 1] /\ UNCHANGED its /\ Adv
CloneOp == At("clone") /\ Out = [ok |-> TRUE] /\ readers' = [readers EXCEPT ![Op[2]] = readers[Op[3]]] /\ UNCHANGED its /\ Adv
Unread == At("unread") /\ Out = [ok |-> TRUE] /\ UNCHANGED <<its, readers>> /\ Adv
NewOp == (At("el") \/ At("bl")) /\ Out = [ok |-> TRUE] /\ its' = [its EXCEPT ![Op[2]] = <<Fresh(Op[1], readers[Op[3]])>>] /\ UNCHANGED readers /\ Adv
DropOp == At("drop") /\ Out = [ok |-> TRUE] /\ its' = [its EXCEPT ![Op[2]] = <<>>] /\ UNCHANGED readers /\ Adv
NextOp ==
  /\ At("next")
  /\ LET it == its[Op[2]][1]
     IN /\ IF Ended(T.files, it) THEN Out = [end |-> TRUE] ELSE Out = ItemAt(T.files[it.file], it.kind, it.at + 1)
        /\ its' = [its EXCEPT ![Op[2]] = <<Advance(T.files, it)>>]
  /\ UNCHANGED readers /\ Adv
TypeCount(s, t) == Cardinality({i \in DOMAIN s : s[i][1] = t})
Counts(f) == <<TypeCount(Elems(f), 1), TypeCount(Elems(f), 2), TypeCount(Elems(f), 3)>>
CountOp == At("count") /\ Out = [c |-> Counts(F(Op[2]))] /\ UNCHANGED <<its, readers>> /\ Adv
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Visited(f, p) ==
  LET all == Elems(f)
      got == SelectSeq(p, LAMBDA e : e[1] # 4)
  IN /\ Len(got) = Len(all) /\ Len(p) - Len(got) = Len(f)
     /\ \A i \in DOMAIN all : Occ(got, all[i]) = Occ(all, all[i])
ParOp == At("par") /\ TRUE = Visited(F(Op[2]), Out.p) /\ UNCHANGED <<its, readers>> /\ Adv
(* a parallel iteration whose callback uses the library at each sentinel *)
NestOp ==
  /\ At("nest") /\ TRUE = Visited(F(Op[2]), Out.p)
  /\ LET f == F(Op[3])
     IN /\ Len(Out.ins) = Len(F(Op[2]))
        /\ TRUE = (\A i \in DOMAIN Out.ins : CASE Op[4] = "count" -> Out.ins[i].c = Counts(f)
                                             [] Op[4] = "el" -> Out.ins[i].b = Elems(f)
                                             [] OTHER -> Visited(f, Out.ins[i].p))
  /\ UNCHANGED <<its, readers>> /\ Adv
(* the files are as they were at the start; everything read at once, aside *)
SameOp == At("same") /\ Out = [same |-> TRUE] /\ UNCHANGED <<its, readers>> /\ Adv
AllOp == At("all") /\ Out = [b |-> Elems(T.files[Op[2] + 1])] /\ UNCHANGED <<its, readers>> /\ Adv
Done == pos = Len(T.ops) /\ T.end = "ok" /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED <<tid, its, readers>>
Next == ReaderOp \/ CloneOp \/ Unread \/ NewOp \/ DropOp \/ NextOp \/ CountOp \/ ParOp \/ NestOp \/ SameOp \/ AllOp \/ Done
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.ops) + 1
Post == Verdict(Total)
=============================================================================
