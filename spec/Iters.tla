------------------------------- MODULE Iters -------------------------------
(* Iterators over files: each has its own position, whatever else happens. An iterator is      *)
(* [kind, file, at]; kind "el" delivers elements, "bl" the header and then whole blocks.        *)
(* Files are sequences of blocks of elements.                                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Elems(f) == FoldLeft(LAMBDA a, x : a \o x, <<>>, f)
Length(f, kind) == IF kind = "el" THEN Len(Elems(f)) ELSE Len(f) + 1
ItemAt(f, kind, i) ==
  IF kind = "el" THEN [e |-> Elems(f)[i]]
  ELSE IF i = 1 THEN [hdr |-> TRUE] ELSE [b |-> f[i - 1]]
Fresh(kind, file) == [kind |-> kind, file |-> file, at |-> 0]
(* the result of one advance, and the iterator afterwards; an ended iterator stays ended *)
Ended(files, it) == it.at >= Length(files[it.file], it.kind)
Advance(files, it) == IF Ended(files, it) THEN it ELSE [it EXCEPT !.at = @ + 1]
=============================================================================
