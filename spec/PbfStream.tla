----------------------------- MODULE PbfStream -----------------------------
(* The framing of a PBF file as a stream of bytes that may end anywhere. A file is known by   *)
(* ends, the positions where its blobs end (ascending).                                       *)
EXTENDS Integers, Sequences, FiniteSets

Boundary(ends, c) == c = 0 \/ \E i \in DOMAIN ends : ends[i] = c
Complete(ends, c) == Cardinality({i \in DOMAIN ends : ends[i] <= c})
(* Blobs of types the format does not know are skipped: known says of each blob whether it is known.  *)
KnownTo(known, k) == SelectSeq([i \in 1..k |-> i], LAMBDA i : known[i])

(* Blob i of a finished file, as observed: its type, the length of its header, the declared and   *)
(* the actual length of its body, its compression, the declared (none or one) and the actual      *)
(* length of its content.                                                                           *)
MaxHeader == 65536
MaxBlob == 33554432
FrameOk(i, f, comp) ==
  /\ f.type = (IF i = 1 THEN "OSMHeader" ELSE "OSMData")
  /\ f.hlen < MaxHeader /\ f.dsize < MaxBlob /\ f.size < MaxBlob
  /\ f.dsize = f.actual
  /\ f.rawsize = <<>> \/ f.rawsize = <<f.size>>
  /\ f.kind = "zlib" => f.rawsize = <<f.size>>
  /\ f.kind = comp
=============================================================================
