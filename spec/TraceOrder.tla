----------------------------- MODULE TraceOrder -----------------------------
(* Observed comparisons of a list of elements els = [t, id, ver]: for each i a row of the results *)
(* of cmp, partial_cmp, ==, same_type with every element and the kind predicates of element i;     *)
(* then the result of sorting the list.                                                            *)
EXTENDS OsmModel, TraceLib, FiniteSets
VARIABLES tid, pos
vars == <<tid, pos>>
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0
N == Len(T.els)
Cmp(a, b) == IF ElemLt(a, b) THEN -1 ELSE IF ElemEq(a, b) THEN 0 ELSE 1
RowOk(i) ==
  LET a == T.els[i]
  IN /\ T.kind[i] = <<a.t = "n", a.t = "w", a.t = "r", a.t = "s">>
     /\ \A j \in 1..N : LET b == T.els[j] IN
          /\ T.cmp[i][j] = Cmp(a, b)
          /\ T.pcmp[i][j] = Cmp(a, b)
          /\ T.eq[i][j] = ElemEq(a, b)
          /\ T.same[i][j] = (a.t = b.t)
Rows == IF T.rows THEN N ELSE 0
Row == pos < Rows /\ TRUE = RowOk(pos + 1) /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SortOk ==
  /\ T.sort = "ok" /\ Len(T.sorted) = N
  /\ \A i \in 1..(N - 1) : ~ElemLt(T.sorted[i + 1], T.sorted[i])
  /\ LET R == {T.els[i] : i \in 1..N}
     IN \A x \in R : Occ(T.sorted, x) = Occ(T.els, x)
Sort == pos = Rows /\ TRUE = SortOk /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Next == Row \/ Sort
Spec == Init /\ [][Next]_vars
Total(t) == (IF t.rows THEN Len(t.els) ELSE 0) + 1
Post == Verdict(Total)
=============================================================================
