----------------------------- MODULE PbfDamage -----------------------------
(* When a blob of a PBF file can be read, and what may come of reading a file with blobs that        *)
(* cannot. The facts about a blob:                                                                    *)
(*   kind  "header", "data"                                                                           *)
(*   read  "ok": its content is a message; "frame": its frame cannot be read, so that nothing after    *)
(*         it can be found; "blob": it is not a blob, or has no data of a known compression; "size":   *)
(*         no or the wrong size of the content is declared; "inflate": its data cannot be expanded or  *)
(*         fails its checksum; "message": its content is not a message                                 *)
(*   blk   the wire structure of a data block (none or one), utf8 for each text whether it is UTF-8    *)
EXTENDS PbfFormat

InTable(blk, i) == i >= 0 /\ i < Len(blk.strs)
(* the lists of n dense nodes: every key has a value, all are texts of the table *)
RECURSIVE KvReadable(_, _, _, _)
KvReadable(blk, kv, p, n) ==
  IF n = 0 \/ p > Len(kv) THEN TRUE
  ELSE IF kv[p] = 0 THEN KvReadable(blk, kv, p + 1, n - 1)
  ELSE IF p = Len(kv) THEN FALSE
  ELSE InTable(blk, kv[p]) /\ InTable(blk, kv[p + 1]) /\ KvReadable(blk, kv, p + 2, n)
RECURSIVE SidsReadable(_, _, _, _)
SidsReadable(blk, sid, i, acc) ==
  IF i > Len(sid) THEN TRUE ELSE InTable(blk, acc + sid[i]) /\ SidsReadable(blk, sid, i + 1, acc + sid[i])
DenseReadable(blk, d) ==
  /\ Len(d.lat) >= Len(d.id) /\ Len(d.lon) >= Len(d.id)
  /\ KvReadable(blk, d.kv, 1, Len(d.id))
  /\ \A i \in DOMAIN d.info : SidsReadable(blk, d.info[i].sid, 1, 0)
InfoReadable(blk, f) == f.sid = <<>> \/ InTable(blk, f.sid[1])
PlainReadable(blk, x) ==
  /\ Len(x.vals) >= Len(x.keys)
  /\ \A i \in DOMAIN x.keys : InTable(blk, x.keys[i]) /\ InTable(blk, x.vals[i])
  /\ \A i \in DOMAIN x.info : InfoReadable(blk, x.info[i])
MembersReadable(blk, r) ==
  /\ Len(r.types) >= Len(r.memids) /\ Len(r.roles) >= Len(r.memids)
  /\ \A i \in DOMAIN r.memids : r.types[i] \in 0..2 /\ InTable(blk, r.roles[i])
GroupReadable(blk, g) ==
  /\ \A i \in DOMAIN g.dense : DenseReadable(blk, g.dense[i])
  /\ \A i \in DOMAIN g.nodes : PlainReadable(blk, g.nodes[i])
  /\ \A i \in DOMAIN g.ways : PlainReadable(blk, g.ways[i])
  /\ \A i \in DOMAIN g.rels : PlainReadable(blk, g.rels[i]) /\ MembersReadable(blk, g.rels[i])
Readable(blk) == \A i \in DOMAIN blk.groups : GroupReadable(blk, blk.groups[i])

Bad(b) ==
  IF b.read # "ok" THEN TRUE
  ELSE (\E i \in DOMAIN b.utf8 : ~b.utf8[i]) \/ (\E i \in DOMAIN b.blk : ~Readable(b.blk[i]))
(* the first of n blobs that cannot be read, n + 1: all can *)
FirstBad(bad, n) == IF bad = {} THEN n + 1 ELSE CHOOSE i \in bad : \A j \in bad : i <= j
=============================================================================
