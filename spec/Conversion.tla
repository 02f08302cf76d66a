----------------------------- MODULE Conversion -----------------------------
(* Chains of conversions between PBF files and API database dumps. A content is a sequence of  *)
(* elements in OSM order. Each conversion reads a content and writes it in a format; what is     *)
(* read back relates to what was given by the relation of that format:                           *)
(*   "seq", "par"  PBF, by the sequential or the parallel writer: the same elements; coordinates *)
(*                 and times move to the grid of the format                                      *)
(*   "dump"        the same, tags without order, and users as last recorded: a changeset has one *)
(*                 user, a user has one name; a sentinel ends each type                          *)
(* The formats are given by relations on elements so that the model and the traces can use       *)
(* their own representation: Pbf(g, r), Row(g, r) (g given, r read, users aside), and the         *)
(* fields cs, uid and user of elements.                                                          *)
EXTENDS Integers, Sequences, FiniteSets

LastWhere(S) == CHOOSE i \in S : \A j \in S : j <= i
UidIn(h, cs) == h[LastWhere({i \in DOMAIN h : h[i].cs = cs})].uid
NameIn(h, uid) == h[LastWhere({i \in DOMAIN h : h[i].uid = uid})].user
Recorded(h, e) == LET u == UidIn(h, e.cs) IN [e EXCEPT !.uid = u, !.user = NameIn(h, u)]
IsSentinel(e) == e.t = "s"
Content(els) == SelectSeq(els, LAMBDA e : ~IsSentinel(e))
=============================================================================
