----------------------------- MODULE ApidbWriter -----------------------------
(* The writer of an API database dump: versions stream in OSM order; each goes to the history  *)
(* table at once; the current row of an object is held back until the next object of its type  *)
(* arrives, or the writer is closed, because a later version may replace or delete it. Tables   *)
(* are buffered; the disk may refuse to take a buffer, now or at close. The history is abstract: *)
(* e = [t, id, ver, vis, ...] and a row is the version itself.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Types
VARIABLES
  given,    \* versions given to the writer
  rows,     \* per table: rows handed to its buffer
  disk,     \* per table: how many of them reached the file
  pend,     \* per type: [id, row]: the object whose current row is held back (row <<>>: none)
  res,      \* results of the calls so far: "ok" as long as none failed
  closed
wvars == <<given, rows, disk, pend, res, closed>>
Tables == {"history", "current"}
WInit ==
  /\ given = <<>> /\ rows = [t \in Tables |-> <<>>] /\ disk = [t \in Tables |-> 0]
  /\ pend = [t \in Types |-> [id |-> 0, row |-> <<>>]] /\ res = "ok" /\ closed = FALSE

(* buffers are spilled to the disk at any moment; a refused spill fails the call *)
Spill(new, r) ==
  \E d \in [Tables -> 0..Len(new["history"])] :
    /\ \A t \in Tables : disk[t] <= d[t] /\ d[t] <= Len(new[t])
    /\ disk' = d
    /\ res' = r
Held(e) == IF e.vis THEN <<e>> ELSE <<>>
Put(e) ==
  /\ ~closed /\ res = "ok"
  /\ LET p == pend[e.t]
         out == IF p.id # e.id THEN p.row ELSE <<>>
         new == [rows EXCEPT !["history"] = Append(@, e), !["current"] = @ \o out]
     IN /\ rows' = new
        /\ pend' = [pend EXCEPT ![e.t] = [id |-> e.id, row |-> Held(e)]]
        /\ given' = Append(given, e)
        /\ (Spill(new, "ok") \/ Spill(new, "err"))
  /\ UNCHANGED closed
RECURSIVE Rest(_)
Rest(S) == IF S = {} THEN <<>> ELSE LET t == CHOOSE x \in S : TRUE IN pend[t].row \o Rest(S \ {t})
Close ==
  /\ ~closed /\ res = "ok" /\ closed' = TRUE
  /\ LET new == [rows EXCEPT !["current"] = @ \o Rest(Types)]
     IN /\ rows' = new
        /\ \/ disk' = [t \in Tables |-> Len(new[t])] /\ res' = "ok"   \* every buffer flushed
           \/ Spill(new, "err")
  /\ pend' = [t \in Types |-> [id |-> 0, row |-> <<>>]]
  /\ UNCHANGED given

(* ---- what the dump promises ---- *)
Last(h) == {i \in DOMAIN h : \A j \in DOMAIN h : j > i => h[j].t # h[i].t \/ h[j].id # h[i].id}
LiveRows(h) == {h[i] : i \in {i \in Last(h) : h[i].vis}}
Range(s) == {s[i] : i \in DOMAIN s}
OnDisk(t) == SubSeq(rows[t], 1, disk[t])
Complete ==
  /\ OnDisk("history") = given
  /\ Range(OnDisk("current")) = LiveRows(given) /\ disk["current"] = Cardinality(LiveRows(given))
(* success means a complete dump *)
NoSilentLoss == closed /\ res = "ok" => Complete
(* at every moment: what is on disk is true of a prefix of the history; nothing superseded or deleted *)
(* is in a current table, except objects whose fate is not known yet, which are held back             *)
NeverWrong ==
  /\ \A t \in Tables : disk[t] <= Len(rows[t])
  /\ \A i, j \in DOMAIN rows["current"] : i # j => <<rows["current"][i].t, rows["current"][i].id>> # <<rows["current"][j].t, rows["current"][j].id>>
  /\ Range(rows["current"]) \subseteq LiveRows(given)
=============================================================================
