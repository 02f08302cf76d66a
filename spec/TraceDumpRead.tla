--------------------------- MODULE TraceDumpRead ---------------------------
(* Observed readings of a dump: T.tables are the rows of its data files, T.got the elements the  *)
(* reader returned. Each step judges one returned element: a sentinel ends each type; within a    *)
(* type the versions come in order, each from its main row, with exactly its own rows.            *)
EXTENDS DumpModel, TraceLib
VARIABLES tid, pos
vars == <<tid, pos>>
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0
B == T.tables
G == T.got
NN == Len(B.nodes)
NW == Len(B.ways)
NR == Len(B.relations)
N == NN + NW + NR + 3
TypeAt(i) == IF i <= NN THEN "n" ELSE IF i = NN + 1 THEN "s" ELSE IF i <= NN + 1 + NW THEN "w" ELSE IF i = NN + NW + 2 THEN "s"
             ELSE IF i <= NN + NW + 2 + NR THEN "r" ELSE "s"
Main(t) == CASE t = "n" -> B.nodes [] t = "w" -> B.ways [] t = "r" -> B.relations
Tags(t) == CASE t = "n" -> B.node_tags [] t = "w" -> B.way_tags [] t = "r" -> B.relation_tags
Own(rows, e) == SelectSeq(rows, LAMBDA r : r[1] = e.id /\ r[2] = e.ver)
(* rows in the order of their third column, the sequence number *)
BySeq(rows) == [i \in DOMAIN rows |-> rows[CHOOSE j \in DOMAIN rows : Cardinality({k \in DOMAIN rows : rows[k][3] < rows[j][3]}) = i - 1]]
UserOk(e) ==
  \E c \in DOMAIN B.changesets : /\ B.changesets[c].id = e.cs /\ B.changesets[c].uid = e.uid
                                 /\ \E u \in DOMAIN B.users : B.users[u].id = e.uid /\ B.users[u].name = e.user
BodyOk(e, m) ==
  CASE e.t = "n" -> CoordStored(WMulS(m.lat, 100), e.lat) /\ CoordStored(WMulS(m.lon, 100), e.lon)
    [] e.t = "w" -> LET r == BySeq(Own(B.way_nodes, e)) IN e.refs = [i \in DOMAIN r |-> r[i][4]]
    [] e.t = "r" -> LET r == BySeq(Own(B.relation_members, e)) IN e.mem = [i \in DOMAIN r |-> <<r[i][4], r[i][5], r[i][6]>>]
ElementOk(e) ==
  /\ \E i \in DOMAIN Main(e.t) : LET m == Main(e.t)[i] IN
       /\ m.id = e.id /\ m.ver = e.ver /\ m.cs = e.cs /\ m.vis = e.vis
       /\ SecondsOf(e.ts, m.ts)
       /\ BodyOk(e, m)
  /\ LET own == Own(Tags(e.t), e) IN BagEq([i \in DOMAIN own |-> <<own[i][3], own[i][4]>>], e.tags)
  /\ UserOk(e)
InOrder(i) == IF i = 1 THEN TRUE ELSE IF G[i - 1].t = G[i].t THEN ElemLt(G[i - 1], G[i]) ELSE TRUE
Read ==
  /\ pos < N
  /\ LET i == pos + 1 IN
       /\ i <= Len(G)
       /\ G[i].t = TypeAt(i)
       /\ (IF G[i].t = "s" THEN TRUE ELSE TRUE = (ElementOk(G[i]) /\ InOrder(i)))
  /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
End == pos = N /\ Len(G) = N /\ T.end = "ok" /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Next == Read \/ End
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.tables.nodes) + Len(t.tables.ways) + Len(t.tables.relations) + 4
Post == Verdict(Total)
=============================================================================
