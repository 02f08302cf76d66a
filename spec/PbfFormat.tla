----------------------------- MODULE PbfFormat -----------------------------
(* The OSM PBF primitive block as published: what the elements of a block are, given its    *)
(* wire structure. Written as a decoder that yields one element per step from registers     *)
(* that carry the running values of the delta coded columns. Optional fields are sequences  *)
(* of length zero or one.                                                                    *)
(*   block: [strs, gran, dgran, lato, lono, groups]                                          *)
(*   group: [dense, nodes, ways, rels]  (dense: zero or one)                                 *)
(*   dense: [id, lat, lon, kv, info: zero or one of [ver, ts, cs, uid, sid, vis]]            *)
EXTENDS OsmModel, FiniteSets, TLC

Opt(s, d) == IF s = <<>> THEN d ELSE s[1]
Gran(blk) == Opt(blk.gran, WInt(100))
DGran(blk) == Opt(blk.dgran, WInt(1000))
LatOff(blk) == Opt(blk.lato, WZero)
LonOff(blk) == Opt(blk.lono, WZero)
Str(blk, i) == blk.strs[i + 1]                 \* entry 0 is reserved: the empty text

Regs0 == [id |-> WZero, lat |-> WZero, lon |-> WZero, ts |-> WZero, cs |-> WZero, uid |-> WZero, sid |-> 0, kv |-> 1]

(* the key/value pairs of a dense node: pairs of string indexes up to a zero; an empty list  *)
(* means that no node of the group has tags                                                  *)
RECURSIVE KvTags(_, _, _)
KvTags(blk, kv, p) ==
  IF p > Len(kv) THEN [tags |-> <<>>, next |-> p]
  ELSE IF kv[p] = 0 THEN [tags |-> <<>>, next |-> p + 1]
  ELSE LET r == KvTags(blk, kv, p + 2)
       IN [tags |-> <<<<Str(blk, kv[p]), Str(blk, kv[p + 1])>>>> \o r.tags, next |-> r.next]

Col(c, i) == IF c = <<>> THEN WZero ELSE c[i]   \* an absent column does not move its register

DenseStep(blk, d, regs, i) ==
  LET has == d.info # <<>>
      f == IF has THEN d.info[1] ELSE [ver |-> <<>>, ts |-> <<>>, cs |-> <<>>, uid |-> <<>>, sid |-> <<>>, vis |-> <<>>]
      id == WAdd(regs.id, d.id[i])
      lat == WAdd(regs.lat, d.lat[i])
      lon == WAdd(regs.lon, d.lon[i])
      ts == WAdd(regs.ts, Col(f.ts, i))
      cs == WAdd(regs.cs, Col(f.cs, i))
      uid == WAdd(regs.uid, Col(f.uid, i))
      sid == regs.sid + (IF f.sid = <<>> THEN 0 ELSE f.sid[i])
      kv == KvTags(blk, d.kv, regs.kv)
  IN [regs |-> [id |-> id, lat |-> lat, lon |-> lon, ts |-> ts, cs |-> cs, uid |-> uid, sid |-> sid, kv |-> kv.next],
      elem |-> [t |-> "n", id |-> id,
                lat |-> WAdd(LatOff(blk), WMul(Gran(blk), lat)),
                lon |-> WAdd(LonOff(blk), WMul(Gran(blk), lon)),
                ver |-> IF f.ver = <<>> THEN <<>> ELSE <<f.ver[i]>>,
                ts |-> IF f.ts = <<>> THEN <<>> ELSE <<WMul(ts, DGran(blk))>>,
                cs |-> IF f.cs = <<>> THEN <<>> ELSE <<cs>>,
                uid |-> IF f.uid = <<>> THEN <<>> ELSE <<uid>>,
                user |-> IF f.sid = <<>> THEN "" ELSE Str(blk, sid),
                vis |-> IF f.vis = <<>> THEN TRUE ELSE f.vis[i],
                tags |-> kv.tags]]

(* info of a plain element; keys and values *)
NoInfo == [ver |-> <<>>, ts |-> <<>>, cs |-> <<>>, uid |-> <<>>, sid |-> <<>>, vis |-> <<>>]
Meta(blk, x) ==
  LET f == Opt(x.info, NoInfo)
  IN [ver |-> f.ver, cs |-> f.cs, uid |-> f.uid,
      ts |-> IF f.ts = <<>> THEN <<>> ELSE <<WMul(f.ts[1], DGran(blk))>>,
      user |-> IF f.sid = <<>> THEN "" ELSE Str(blk, f.sid[1]),
      vis |-> Opt(f.vis, TRUE)]
Tags(blk, x) == [i \in 1..Len(x.keys) |-> <<Str(blk, x.keys[i]), Str(blk, x.vals[i])>>]

RECURSIVE Running(_, _)
Running(s, acc) == IF s = <<>> THEN <<>> ELSE LET a == WAdd(acc, s[1]) IN <<a>> \o Running(Tail(s), a)

PlainNode(blk, x) ==
  [t |-> "n", id |-> x.id, lat |-> WAdd(LatOff(blk), WMul(Gran(blk), x.lat)), lon |-> WAdd(LonOff(blk), WMul(Gran(blk), x.lon)),
   tags |-> Tags(blk, x)] @@ Meta(blk, x)
PlainWay(blk, x) == [t |-> "w", id |-> x.id, refs |-> Running(x.refs, WZero), tags |-> Tags(blk, x)] @@ Meta(blk, x)
MemberTypes == <<"n", "w", "r">>
PlainRel(blk, x) ==
  LET ids == Running(x.memids, WZero)
  IN [t |-> "r", id |-> x.id, tags |-> Tags(blk, x),
      mem |-> [i \in 1..Len(x.memids) |-> <<MemberTypes[x.types[i] + 1], ids[i], Str(blk, x.roles[i])>>]] @@ Meta(blk, x)

(* position <<group, component, item>>; components are visited dense, nodes, ways, rels *)
Count(g, c) == CASE c = 1 -> IF g.dense = <<>> THEN 0 ELSE Len(g.dense[1].id)
                 [] c = 2 -> Len(g.nodes) [] c = 3 -> Len(g.ways) [] c = 4 -> Len(g.rels)
RECURSIVE NextPos(_, _)
NextPos(blk, p) ==                                  \* the first position at or after p that holds an element
  IF p[1] > Len(blk.groups) THEN p
  ELSE IF p[2] > 4 THEN NextPos(blk, <<p[1] + 1, 1, 1>>)
  ELSE IF p[3] > Count(blk.groups[p[1]], p[2]) THEN NextPos(blk, <<p[1], p[2] + 1, 1>>)
  ELSE p
AtEnd(blk, p) == p[1] > Len(blk.groups)
(* decode the element at p *)
DecodeAt(blk, regs, p) ==
  LET g == blk.groups[p[1]]
      r == IF p[3] = 1 THEN Regs0 ELSE regs
  IN CASE p[2] = 1 -> DenseStep(blk, g.dense[1], r, p[3])
       [] p[2] = 2 -> [regs |-> r, elem |-> PlainNode(blk, g.nodes[p[3]])]
       [] p[2] = 3 -> [regs |-> r, elem |-> PlainWay(blk, g.ways[p[3]])]
       [] p[2] = 4 -> [regs |-> r, elem |-> PlainRel(blk, g.rels[p[3]])]
Step(p) == <<p[1], p[2], p[3] + 1>>

RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(blk, regs, p0) ==
  LET p == NextPos(blk, p0)
  IN IF AtEnd(blk, p) THEN <<>>
     ELSE LET d == DecodeAt(blk, regs, p) IN <<d.elem>> \o DecodeFrom(blk, d.regs, Step(p))
DecodeBlock(blk) == DecodeFrom(blk, Regs0, <<1, 1, 1>>)

(* what the format demands of a producer beyond what a decoder needs: the reserved entry of the    *)
(* string table, columns of one length, one delimiter for every dense node in a tag list that is    *)
(* not empty, one kind of element in a group                                                        *)
RECURSIVE KvAfter(_, _, _)
KvAfter(kv, p, n) ==                                \* the position after n delimited lists; 0: there is none
  IF n = 0 THEN p
  ELSE IF p > Len(kv) THEN 0
  ELSE IF kv[p] = 0 THEN KvAfter(kv, p + 1, n - 1)
  ELSE IF p = Len(kv) THEN 0
  ELSE KvAfter(kv, p + 2, n)
FullColumn(c, n) == c = <<>> \/ Len(c) = n
WellFormedDense(d) ==
  LET n == Len(d.id)
  IN /\ Len(d.lat) = n /\ Len(d.lon) = n
     /\ d.kv = <<>> \/ KvAfter(d.kv, 1, n) = Len(d.kv) + 1
     /\ \A i \in DOMAIN d.info : LET f == d.info[i]
                               IN /\ FullColumn(f.ver, n) /\ FullColumn(f.ts, n) /\ FullColumn(f.cs, n)
                                  /\ FullColumn(f.uid, n) /\ FullColumn(f.sid, n) /\ FullColumn(f.vis, n)
WellFormedPlain(x) == Len(x.keys) = Len(x.vals)
WellFormedGroup(g) ==
  /\ Cardinality({c \in 1..4 : Count(g, c) > 0}) <= 1
  /\ \A i \in DOMAIN g.dense : WellFormedDense(g.dense[i])
  /\ \A i \in DOMAIN g.nodes : WellFormedPlain(g.nodes[i])
  /\ \A i \in DOMAIN g.ways : WellFormedPlain(g.ways[i])
  /\ \A i \in DOMAIN g.rels : LET r == g.rels[i] IN WellFormedPlain(r) /\ Len(r.types) = Len(r.memids) /\ Len(r.roles) = Len(r.memids)
WellFormed(blk) == (IF blk.strs = <<>> THEN TRUE ELSE blk.strs[1] = "") /\ \A i \in DOMAIN blk.groups : WellFormedGroup(blk.groups[i])

(* a written element, decoded: all metadata is present *)
SameWritten(w, d) ==
  /\ w.t = d.t /\ w.id = d.id
  /\ d.ver = <<w.ver>> /\ d.cs = <<w.cs>> /\ d.uid = <<w.uid>>
  /\ d.ts # <<>> /\ TimeStored(w.ts, d.ts[1])
  /\ w.user = d.user /\ w.vis = d.vis /\ w.tags = d.tags
  /\ SameBody(w, d)
(* an element as a reader delivers it: exactly what the format says; metadata that is not in the file is the reader's choice *)
Given(s, v) == s = <<>> \/ s = <<v>>
SameRead(d, r) ==
  /\ d.t = r.t /\ d.id = r.id
  /\ Given(d.ver, r.ver) /\ Given(d.cs, r.cs) /\ Given(d.uid, r.uid) /\ Given(d.ts, r.ts)
  /\ d.user = r.user /\ d.vis = r.vis /\ d.tags = r.tags
  /\ CASE d.t = "n" -> d.lat = r.lat /\ d.lon = r.lon
       [] d.t = "w" -> d.refs = r.refs
       [] d.t = "r" -> d.mem = r.mem
=============================================================================
