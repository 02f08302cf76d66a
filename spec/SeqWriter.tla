----------------------------- MODULE SeqWriter -----------------------------
(* The sequential PBF writer as a user may rely on it: elements given to it become         *)
(* pending, and at any time it may move a prefix of the pending elements of one type to a   *)
(* new block at the end of the file. When a call returns, at most BlockSize elements are    *)
(* pending; when close returns, none. A block is appended in one step of the file, which a  *)
(* crash can cut (see CrashCut in SeqWriterMC).                                             *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANT BlockSize
VARIABLES phase,    \* "new", "open" (header written) or "closed"
          given,    \* all elements accepted so far
          pending,  \* those not yet in a block
          blocks    \* the data blocks on disk

swvars == <<phase, given, pending, blocks>>

RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))

FoldFlat(s) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, s)      \* the same, evaluated quickly
OneTypeFast(s) == \A i \in 1..(Len(s) - 1) : s[i][1] = s[i + 1][1]
OneType(s) == \A i, j \in DOMAIN s : s[i][1] = s[j][1]

SWInit == phase = "new" /\ given = <<>> /\ pending = <<>> /\ blocks = <<>>
WriteHeader == phase = "new" /\ phase' = "open" /\ UNCHANGED <<given, pending, blocks>>
(* precondition of the writer: types do not go back *)
InTypeOrder(e) == IF given = <<>> THEN TRUE ELSE given[Len(given)][1] <= e[1]
Accept(e) ==
  /\ phase = "open" /\ InTypeOrder(e)
  /\ given' = Append(given, e) /\ pending' = Append(pending, e)
  /\ UNCHANGED <<phase, blocks>>
Flush(k) ==
  /\ phase = "open" /\ k \in 0..Len(pending) /\ k <= BlockSize
  /\ OneType(SubSeq(pending, 1, k))
  /\ blocks' = Append(blocks, SubSeq(pending, 1, k))
  /\ pending' = SubSeq(pending, k + 1, Len(pending))
  /\ UNCHANGED <<phase, given>>
Close == phase = "open" /\ pending = <<>> /\ phase' = "closed" /\ UNCHANGED <<given, pending, blocks>>

(* what holds of the file at all times *)
NothingLost == Flatten(blocks) \o pending = given
BlocksValid == \A i \in DOMAIN blocks : Len(blocks[i]) <= BlockSize /\ OneType(blocks[i])
ClosedComplete == phase = "closed" => Flatten(blocks) = given
=============================================================================
