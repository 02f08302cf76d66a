----------------------------- MODULE DumpModel -----------------------------
(* The API database: which rows a history of element versions stands for, and which       *)
(* elements the rows of a database stand for. A history is a sequence of elements in the   *)
(* full form of OsmModel.tla, in OSM order. Rows are records with fields of fixed names:   *)
(*   nodes / current_nodes          [id, ver, cs, vis, ts (seconds), lat, lon (1e-7), tile] *)
(*   ways, relations / current_*    [id, ver, cs, vis, ts]                                  *)
(*   *_tags                         <<id, ver, k, v>>       current: <<id, k, v>>            *)
(*   way_nodes                      <<id, ver, seq, ref>>   current: <<id, seq, ref>>        *)
(*   relation_members               <<id, ver, seq, type, ref, role>>   current: without ver *)
(* Integers are wide, texts hexadecimal, sequence numbers plain integers.                   *)
EXTENDS OsmModel, FiniteSets

Occurs(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* the same rows, each as often, in any order *)
BagEq(a, b) ==
  /\ Len(a) = Len(b)
  /\ LET A == SeqRange(a)
     IN /\ A = SeqRange(b)
        /\ (IF Cardinality(A) = Len(a) THEN TRUE ELSE \A x \in A : Occurs(a, x) = Occurs(b, x))

(* ---- time, coordinates, tile ---- *)
SecondsOf(ms, s) == WLt(WAbs(WSub(ms, WMulS(s, 1000))), WInt(1000))
Deg7Of(nano, d) == WLt(WAbs(WSub(nano, WMulS(d, 100))), WInt(100))

(* the quad tile: x and y are the coordinates scaled to 0..65535 and rounded; their bits    *)
(* alternate, x first                                                                       *)
RECURSIVE Deinterleave(_, _, _, _, _)
Deinterleave(t, k, bit, x, y) ==
  IF k = 0 THEN <<x, y, t>>
  ELSE LET d == WQR(t, 4) IN Deinterleave(d.q, k - 1, bit * 2, x + bit * (d.r \div 2), y + bit * (d.r % 2))
N180 == WMulS(WInt(180000000), 1000)
N90 == WMulS(WInt(90000000), 1000)
N360 == WAdd(N180, N180)
(* |c * span - (v + half) * 65535| <= span / 2, with room for the error of double precision *)
Rounds(c, v, half, span) ==
  LET want == WSub(WMulS(WAdd(v, half), 32767), WNeg(WMulS(WAdd(v, half), 32767)))   \* * 65534
      w1 == WAdd(want, WAdd(v, half))
      got == WMul(span, WInt(c))
      err == WAbs(WSub(got, w1))
  IN WLeq(WAdd(err, err), WAdd(span, WInt(2000)))
TileOf(lat, lon, tile) ==
  LET d == Deinterleave(tile, 16, 1, 0, 0)
  IN /\ d[3] = WZero
     /\ Rounds(d[1], lon, N180, N360)
     /\ Rounds(d[2], lat, N90, N180)

(* ---- rows of one version ---- *)
MainRow(e, r) ==
  /\ r.id = e.id /\ r.ver = e.ver /\ r.cs = e.cs /\ r.vis = e.vis
  /\ SecondsOf(e.ts, r.ts)
  /\ IF e.t = "n"
     THEN Deg7Of(e.lat, r.lat) /\ Deg7Of(e.lon, r.lon) /\ TileOf(e.lat, e.lon, r.tile)
     ELSE TRUE
TagRows(e) == [i \in DOMAIN e.tags |-> <<e.id, e.ver, e.tags[i][1], e.tags[i][2]>>]
CurTagRows(e) == [i \in DOMAIN e.tags |-> <<e.id, e.tags[i][1], e.tags[i][2]>>]
RefRows(e) == [i \in DOMAIN e.refs |-> <<e.id, e.ver, i, e.refs[i]>>]
CurRefRows(e) == [i \in DOMAIN e.refs |-> <<e.id, i, e.refs[i]>>]
MemRows(e) == [i \in DOMAIN e.mem |-> <<e.id, e.ver, i, e.mem[i][1], e.mem[i][2], e.mem[i][3]>>]
CurMemRows(e) == [i \in DOMAIN e.mem |-> <<e.id, i, e.mem[i][1], e.mem[i][2], e.mem[i][3]>>]

(* ---- parts of a history ---- *)
OfType(h, t) == SelectSeq(h, LAMBDA e : e.t = t)
(* the last version of each object, where it is visible; h is in OSM order *)
LiveIdx(h) == {i \in DOMAIN h : h[i].vis /\ (i = Len(h) \/ h[i + 1].t # h[i].t \/ h[i + 1].id # h[i].id)}
RECURSIVE Pick(_, _, _)
Pick(h, S, i) == IF i > Len(h) THEN <<>> ELSE (IF i \in S THEN <<h[i]>> ELSE <<>>) \o Pick(h, S, i + 1)
Live(h) == Pick(h, LiveIdx(h), 1)

Over(h, f(_)) == Flatten2([i \in DOMAIN h |-> f(h[i])])

(* rows are the main rows of exactly the versions h, each once: rows may come in any order *)
MainTable(h, rows) ==
  /\ Len(rows) = Len(h)
  /\ Cardinality({<<rows[i].id, rows[i].ver>> : i \in DOMAIN rows}) = Len(rows)
  /\ \A i \in DOMAIN h : \E j \in DOMAIN rows : MainRow(h[i], rows[j])

(* ---- users and changesets ---- *)
Uids(h) == {h[i].uid : i \in DOMAIN h}
Changesets(h) == {h[i].cs : i \in DOMAIN h}
UserTable(h, rows) ==
  /\ Len(rows) = Cardinality(Uids(h))
  /\ {rows[i].id : i \in DOMAIN rows} = Uids(h)
  /\ \A i \in DOMAIN rows : \E j \in DOMAIN h : h[j].uid = rows[i].id /\ h[j].user = rows[i].name
ChangesetTable(h, rows) ==
  /\ Len(rows) = Cardinality(Changesets(h))
  /\ {rows[i].id : i \in DOMAIN rows} = Changesets(h)
  /\ \A i \in DOMAIN rows : \E j \in DOMAIN h : h[j].cs = rows[i].id /\ h[j].uid = rows[i].uid
(* each changeset has the tags that say who created it, the same for all *)
CreatedBy == "637265617465645f6279"
Replication == "7265706c69636174696f6e"
True == "74727565"
ChangesetTagTable(h, rows) ==
  /\ Len(rows) = 2 * Cardinality(Changesets(h))
  /\ {<<rows[i][1], rows[i][2]>> : i \in DOMAIN rows} = Changesets(h) \X {CreatedBy, Replication}
  /\ \A i \in DOMAIN rows : rows[i][2] = Replication => rows[i][3] = True
  /\ Cardinality({rows[i][3] : i \in {j \in DOMAIN rows : rows[j][2] = CreatedBy}}) <= 1
  /\ \A i \in DOMAIN rows : rows[i][2] = CreatedBy => Len(rows[i][3]) > 0
=============================================================================
