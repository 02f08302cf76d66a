----------------------------- MODULE OsmModel -----------------------------
(* OSM elements, their order, and what "the same element" means after storage.           *)
(*                                                                                        *)
(* Full form (content checks), integers wide, texts as hexadecimal tokens:                *)
(*   [t |-> "n", id, ver, lat, lon (nanodegrees), ts (ms), cs, uid, user, vis, tags]       *)
(*   [t |-> "w", id, ver, ts, cs, uid, user, vis, tags, refs]                              *)
(*   [t |-> "r", id, ver, ts, cs, uid, user, vis, tags, mem]   mem: <<type, id, role>>      *)
(*   [t |-> "s"]  the sentinel                                                             *)
(* Key form (structure checks): <<rank, id, ver, token>> with small integers, where token  *)
(*   identifies the remaining content up to equality.                                      *)
EXTENDS Wide

Rank(t) == CASE t = "n" -> 1 [] t = "w" -> 2 [] t = "r" -> 3 [] t = "s" -> 4

(* the total order of elements: type, id, version; the sentinel is last *)
ElemLt(a, b) ==
  \/ Rank(a.t) < Rank(b.t)
  \/ /\ a.t = b.t
     /\ a.t # "s"
     /\ \/ WLt(a.id, b.id)
        \/ a.id = b.id /\ WLt(a.ver, b.ver)
ElemEq(a, b) == a.t = b.t /\ (a.t = "s" \/ (a.id = b.id /\ a.ver = b.ver))

KeyLt(a, b) ==
  \/ a[1] < b[1]
  \/ a[1] = b[1] /\ \/ a[2] < b[2]
                    \/ a[2] = b[2] /\ a[3] < b[3]
KeyLeq(a, b) == ~KeyLt(b, a)

IsSortedKeys(s) == \A i \in 1..(Len(s) - 1) : KeyLeq(s[i], s[i + 1])

(* a coordinate is stored in units of 100 nanodegrees, a timestamp in seconds *)
CoordStored(w, r) == WModS(r, 100) = 0 /\ WLt(WAbs(WSub(w, r)), WInt(100))
TimeStored(w, r) == WModS(r, 1000) = 0 /\ WLt(WAbs(WSub(w, r)), WInt(1000))

SameMeta(w, r) ==
  /\ w.t = r.t /\ w.id = r.id /\ w.ver = r.ver
  /\ TimeStored(w.ts, r.ts)
  /\ w.cs = r.cs /\ w.uid = r.uid /\ w.user = r.user /\ w.vis = r.vis
SameBody(w, r) ==
  CASE w.t = "n" -> CoordStored(w.lat, r.lat) /\ CoordStored(w.lon, r.lon)
    [] w.t = "w" -> w.refs = r.refs
    [] w.t = "r" -> w.mem = r.mem
    [] OTHER -> TRUE
(* r is what reading w back must give *)
SameStored(w, r) == SameMeta(w, r) /\ w.tags = r.tags /\ SameBody(w, r)
(* the same where tags form a set (database rows have no order) *)
SeqRange(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flatten2(_)
Flatten2(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flatten2(Tail(s))      \* concatenation
SameStoredTagSet(w, r) ==
  SameMeta(w, r) /\ SameBody(w, r) /\ Len(w.tags) = Len(r.tags) /\ SeqRange(w.tags) = SeqRange(r.tags)
=============================================================================
