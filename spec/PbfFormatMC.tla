---------------------------- MODULE PbfFormatMC ----------------------------
(* The encoder of the library as a state machine (string table that starts with the         *)
(* reserved empty entry and reuses entries, delta coded dense nodes, ways and relations in   *)
(* groups of their own), one element per step, and the check that the published decoding of  *)
(* the block it has built so far gives exactly the elements it was given.                    *)
EXTENDS PbfFormat

CONSTANTS MaxElems, Kinds
VARIABLES given, strs, dense, ways, rels, last
vars == <<given, strs, dense, ways, rels, last>>

(* a small domain that includes equal texts in different roles and deltas of both signs *)
Ids == {WInt(-3), WInt(5)}
Texts == {"", "61"}
TagSets == {<<>>, <<<<"61", "62">>>>, <<<<"61", "61">>, <<"", "62">>>>}
NodeAt(id, u, tg) == [t |-> "n", id |-> id, ver |-> WInt(2), lat |-> WMulS(id, 100), lon |-> WMulS(id, -300), ts |-> WInt(7000), cs |-> WInt(9),
                      uid |-> WInt(4), user |-> u, vis |-> id = WInt(5), tags |-> tg]
WayAt(id, u, tg, rf) == [t |-> "w", id |-> id, ver |-> WInt(1), ts |-> WInt(0), cs |-> WInt(1), uid |-> WInt(0), user |-> u, vis |-> TRUE, tags |-> tg, refs |-> rf]
RelAt(id, u, tg, m) == [t |-> "r", id |-> id, ver |-> WInt(1), ts |-> WInt(1000), cs |-> WInt(1), uid |-> WInt(0), user |-> u, vis |-> FALSE, tags |-> tg, mem |-> m]
RefSets == {<<>>, <<WInt(5), WInt(-3), WInt(5)>>}
MemSets == {<<>>, <<<<"w", WInt(5), "62">>, <<"r", WInt(-3), "">>>>}
Nodes == {NodeAt(i, u, t) : i \in Ids, u \in Texts, t \in TagSets}
Ways == {WayAt(WInt(5), u, t, r) : u \in Texts, t \in TagSets, r \in RefSets}
Rels == {RelAt(WInt(5), u, t, m) : u \in Texts, t \in TagSets, m \in MemSets}
Domain == (IF "n" \in Kinds THEN Nodes ELSE {}) \cup (IF "w" \in Kinds THEN Ways ELSE {}) \cup (IF "r" \in Kinds THEN Rels ELSE {})

(* string table: index of s in st (entry 0 is never used for a text), extended if new *)
Find(st, s) == {i \in 2..Len(st) : st[i] = s}
AddStr(st, s) == IF Find(st, s) = {} THEN Append(st, s) ELSE st
Idx(st, s) == (CHOOSE i \in Find(st, s) : TRUE) - 1
RECURSIVE AddAll(_, _)
AddAll(st, ss) == IF ss = <<>> THEN st ELSE AddAll(AddStr(st, ss[1]), Tail(ss))
TagTexts(tg) == Flatten2(tg)
Deltas(s) == [i \in 1..Len(s) |-> IF i = 1 THEN s[1] ELSE WSub(s[i], s[i - 1])]

NoDense == [id |-> <<>>, lat |-> <<>>, lon |-> <<>>, kv |-> <<>>, info |-> <<[ver |-> <<>>, ts |-> <<>>, cs |-> <<>>, uid |-> <<>>, sid |-> <<>>, vis |-> <<>>]>>]
Init == given = <<>> /\ strs = <<"">> /\ dense = NoDense /\ ways = <<>> /\ rels = <<>> /\ last = Regs0

PutNode(e) ==
  LET st == AddAll(AddStr(strs, e.user), TagTexts(e.tags))
      sid == Idx(st, e.user)
      lat == WDivS(e.lat, 100)
      lon == WDivS(e.lon, 100)
      ts == WDivS(e.ts, 1000)
      f == dense.info[1]
  IN /\ strs' = st
     /\ dense' = [id |-> Append(dense.id, WSub(e.id, last.id)), lat |-> Append(dense.lat, WSub(lat, last.lat)),
                  lon |-> Append(dense.lon, WSub(lon, last.lon)),
                  kv |-> dense.kv \o Flatten2([i \in 1..Len(e.tags) |-> <<Idx(st, e.tags[i][1]), Idx(st, e.tags[i][2])>>]) \o <<0>>,
                  info |-> <<[ver |-> Append(f.ver, e.ver), ts |-> Append(f.ts, WSub(ts, last.ts)), cs |-> Append(f.cs, WSub(e.cs, last.cs)),
                              uid |-> Append(f.uid, WSub(e.uid, last.uid)), sid |-> Append(f.sid, sid - last.sid), vis |-> Append(f.vis, e.vis)]>>]
     /\ last' = [last EXCEPT !.id = e.id, !.lat = lat, !.lon = lon, !.ts = ts, !.cs = e.cs, !.uid = e.uid, !.sid = sid]
     /\ UNCHANGED <<ways, rels>>
InfoOf(e, st) == <<[ver |-> <<e.ver>>, ts |-> <<WDivS(e.ts, 1000)>>, cs |-> <<e.cs>>, uid |-> <<e.uid>>, sid |-> <<Idx(st, e.user)>>, vis |-> <<e.vis>>]>>
KeysOf(e, st) == [i \in 1..Len(e.tags) |-> Idx(st, e.tags[i][1])]
ValsOf(e, st) == [i \in 1..Len(e.tags) |-> Idx(st, e.tags[i][2])]
PutWay(e) ==
  LET st == AddStr(AddAll(strs, TagTexts(e.tags)), e.user)
  IN /\ strs' = st
     /\ ways' = Append(ways, [id |-> e.id, keys |-> KeysOf(e, st), vals |-> ValsOf(e, st), info |-> InfoOf(e, st), refs |-> Deltas(e.refs)])
     /\ UNCHANGED <<dense, rels, last>>
TypeCode(t) == CASE t = "n" -> 0 [] t = "w" -> 1 [] t = "r" -> 2
PutRel(e) ==
  LET st == AddStr(AddAll(AddAll(strs, [i \in 1..Len(e.mem) |-> e.mem[i][3]]), TagTexts(e.tags)), e.user)
  IN /\ strs' = st
     /\ rels' = Append(rels, [id |-> e.id, keys |-> KeysOf(e, st), vals |-> ValsOf(e, st), info |-> InfoOf(e, st),
                              memids |-> Deltas([i \in 1..Len(e.mem) |-> e.mem[i][2]]), types |-> [i \in 1..Len(e.mem) |-> TypeCode(e.mem[i][1])],
                              roles |-> [i \in 1..Len(e.mem) |-> Idx(st, e.mem[i][3])]])
     /\ UNCHANGED <<dense, ways, last>>
Add(e) ==
  /\ Len(given) < MaxElems
  /\ IF given = <<>> THEN TRUE ELSE Rank(given[Len(given)].t) <= Rank(e.t)
  /\ given' = Append(given, e)
  /\ CASE e.t = "n" -> PutNode(e) [] e.t = "w" -> PutWay(e) [] e.t = "r" -> PutRel(e)
Next == \E e \in Domain : Add(e)
Spec == Init /\ [][Next]_vars

G(d, w, r) == [dense |-> d, nodes |-> <<>>, ways |-> w, rels |-> r]
Built == [strs |-> strs, gran |-> <<WInt(100)>>, dgran |-> <<WInt(1000)>>, lato |-> <<WZero>>, lono |-> <<WZero>>,
          groups |-> (IF dense.id = <<>> THEN <<>> ELSE <<G(<<dense>>, <<>>, <<>>)>>)
                     \o (IF ways = <<>> THEN <<>> ELSE <<G(<<>>, ways, <<>>)>>) \o (IF rels = <<>> THEN <<>> ELSE <<G(<<>>, <<>>, rels)>>)]
RoundTrip ==
  LET d == DecodeBlock(Built)
  IN Len(d) = Len(given) /\ \A i \in 1..Len(given) : SameWritten(given[i], d[i])
BlockSound == WellFormed(Built)
ReservedEntry == strs[1] = ""
NoZeroKey == \A w \in SeqRange(ways) : \A i \in 1..Len(w.keys) : w.keys[i] # 0
=============================================================================
