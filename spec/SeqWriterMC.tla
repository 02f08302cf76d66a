---------------------------- MODULE SeqWriterMC ----------------------------
(* The accumulator of the implementation (one vector, a state of current type, a block      *)
(* emitted when it is full or the type changes), at the grain of the code: a call takes      *)
(* several steps, and a crash can happen between any two of them or within the write of a    *)
(* block. Checked: it implements SeqWriter, and the file after a crash (readable blocks) is  *)
(* a prefix of what was given, missing at most what SeqWriter allows.                        *)
EXTENDS SeqWriter, TLC

CONSTANTS MaxLen, MaxId
VARIABLES st,      \* accumulator state: type rank 1, 2 or 3
          todo,    \* elements of the call in progress
          cut,     \* TRUE once a crash has cut the file inside a block being written
          sure     \* number of elements in complete blocks when the call in progress started
vars == <<phase, given, pending, blocks, st, todo, cut, sure>>

OnDisk == Len(Flatten(blocks))
Elems == {<<t, i>> : t \in 1..3, i \in 1..MaxId}
Calls == UNION {[1..n -> Elems] : n \in 1..2}

Init == SWInit /\ st = 1 /\ todo = <<>> /\ cut = FALSE /\ sure = 0
Header == WriteHeader /\ UNCHANGED <<st, todo, cut, sure>>
Ordered(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
Call(es) ==
  /\ phase = "open" /\ todo = <<>> /\ ~cut
  /\ Len(given) + Len(es) <= MaxLen
  /\ Ordered(es) /\ InTypeOrder(es[1])
  /\ todo' = es /\ sure' = OnDisk
  /\ UNCHANGED <<phase, given, pending, blocks, st, cut>>
(* a change of type emits the accumulated block (possibly empty) before the element is taken *)
ChangeType ==
  /\ todo # <<>> /\ ~cut /\ todo[1][1] # st
  /\ Flush(Len(pending))
  /\ st' = todo[1][1]
  /\ UNCHANGED <<todo, cut, sure>>
Take ==
  /\ todo # <<>> /\ ~cut /\ todo[1][1] = st /\ Len(pending) < BlockSize
  /\ Accept(todo[1])
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<st, cut, sure>>
Full ==
  /\ phase = "open" /\ ~cut /\ Len(pending) = BlockSize
  /\ Flush(BlockSize)
  /\ UNCHANGED <<st, todo, cut, sure>>
CloseFlush ==
  /\ phase = "open" /\ todo = <<>> /\ ~cut /\ pending # <<>> /\ Len(pending) < BlockSize
  /\ Flush(Len(pending))
  /\ UNCHANGED <<st, todo, cut, sure>>
CloseDone == ~cut /\ todo = <<>> /\ Close /\ UNCHANGED <<st, todo, cut, sure>>
(* the block that would be written next is only partly on disk: it is not readable *)
CrashCut == phase = "open" /\ ~cut /\ pending # <<>> /\ cut' = TRUE /\ UNCHANGED <<phase, given, pending, blocks, st, todo, sure>>

Next == Header \/ (\E es \in Calls : Call(es)) \/ ChangeType \/ Take \/ Full \/ CloseFlush \/ CloseDone \/ CrashCut
Spec == Init /\ [][Next]_vars

(* refinement of the abstract writer *)
AbsNext == WriteHeader \/ (\E e \in Elems : Accept(e)) \/ (\E k \in 0..BlockSize : Flush(k)) \/ Close
Refines == [][AbsNext]_swvars

Returned == phase = "open" /\ todo = <<>>
MissingAtMostABlock == Returned => Len(pending) <= BlockSize
PrefixOnDisk == Flatten(blocks) = SubSeq(given, 1, OnDisk)
NeverLosesSure == OnDisk >= sure
=============================================================================
