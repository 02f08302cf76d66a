----------------------------- MODULE TraceDump -----------------------------
(* Observed dumps. T.h is the history that was written, T.end how writing and closing ended,   *)
(* T.tables the rows found in the data files, arranged by the column names of the table of      *)
(* contents; T.steps names the tables that are judged.                                          *)
EXTENDS DumpModel, TraceLib
VARIABLES tid, pos
vars == <<tid, pos>>
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0
Hist == TLCEval([i \in 1..NTraces |-> Traces[i].h])
H == Hist[tid]
Lives == TLCEval([i \in 1..NTraces |-> Live(Traces[i].h)])
L == Lives[tid]
B == T.tables
Holds(s) ==
  CASE s = "closed" -> T.end = "ok"
    \* calls made after closing: elements are refused
    [] s = "after" -> \A i \in DOMAIN T.after : IF T.after[i].k = "write" THEN T.after[i].r = "err" ELSE T.after[i].r \in {"ok", "err"}
    [] s = "nodes" -> MainTable(OfType(H, "n"), B.nodes)
    [] s = "ways" -> MainTable(OfType(H, "w"), B.ways)
    [] s = "relations" -> MainTable(OfType(H, "r"), B.relations)
    [] s = "node_tags" -> BagEq(Over(OfType(H, "n"), TagRows), B.node_tags)
    [] s = "way_tags" -> BagEq(Over(OfType(H, "w"), TagRows), B.way_tags)
    [] s = "relation_tags" -> BagEq(Over(OfType(H, "r"), TagRows), B.relation_tags)
    [] s = "way_nodes" -> BagEq(Over(OfType(H, "w"), RefRows), B.way_nodes)
    [] s = "relation_members" -> BagEq(Over(OfType(H, "r"), MemRows), B.relation_members)
    [] s = "current_nodes" -> MainTable(OfType(L, "n"), B.current_nodes)
    [] s = "current_ways" -> MainTable(OfType(L, "w"), B.current_ways)
    [] s = "current_relations" -> MainTable(OfType(L, "r"), B.current_relations)
    [] s = "current_node_tags" -> BagEq(Over(OfType(L, "n"), CurTagRows), B.current_node_tags)
    [] s = "current_way_tags" -> BagEq(Over(OfType(L, "w"), CurTagRows), B.current_way_tags)
    [] s = "current_relation_tags" -> BagEq(Over(OfType(L, "r"), CurTagRows), B.current_relation_tags)
    [] s = "current_way_nodes" -> BagEq(Over(OfType(L, "w"), CurRefRows), B.current_way_nodes)
    [] s = "current_relation_members" -> BagEq(Over(OfType(L, "r"), CurMemRows), B.current_relation_members)
    [] s = "users" -> UserTable(H, B.users)
    [] s = "changesets" -> ChangesetTable(H, B.changesets)
    [] s = "changeset_tags" -> ChangesetTagTable(H, B.changeset_tags)
    \* every data file the table of contents names: there, one end marker as its last line, rows of
    \* the declared width, and every value of the declared type
    [] s = "files" -> /\ T.tocok /\ Len(T.files) > 0
                      /\ \A i \in DOMAIN T.files : LET f == T.files[i] IN f.exists /\ f.markers = 1 /\ f.last /\ f.badwidth = 0 /\ f.badvalue = 0
(* T.fault: the disk failed at some moment; then an error may be reported, and what was written  *)
(* counts only where none was. "noticed": the failure hit data of the dump, so one is due.         *)
Judge(s) == IF T.fault THEN (IF s = "noticed" THEN T.end = "err" ELSE IF T.end = "err" THEN TRUE ELSE Holds(s)) ELSE Holds(s)
Check == pos < Len(T.steps) /\ TRUE = Judge(T.steps[pos + 1]) /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Next == Check
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.steps)
Post == Verdict(Total)
=============================================================================
