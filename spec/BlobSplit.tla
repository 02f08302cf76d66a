----------------------------- MODULE BlobSplit -----------------------------
(* A blob must be smaller than Limit. A block of elements that does not fit is cut in halves until   *)
(* every part fits; a single element that does not fit cannot be written at all.                     *)
EXTENDS Naturals, Sequences
CONSTANTS Limit, Overhead
RECURSIVE SumOf(_)
SumOf(b) == IF b = <<>> THEN 0 ELSE Head(b) + SumOf(Tail(b))
SizeOf(b) == Overhead + SumOf(b)
Fits(b) == SizeOf(b) < Limit
Halves(b) == LET h == Len(b) \div 2 IN <<SubSeq(b, 1, h), SubSeq(b, h + 1, Len(b))>>
Writable(b) == \A i \in DOMAIN b : Fits(<<b[i]>>)
=============================================================================
