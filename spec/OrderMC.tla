------------------------------ MODULE OrderMC ------------------------------
(* The order of elements is a total order consistent with equality: checked for all triples of  *)
(* a domain with negative, small and very large ids and versions. Sorting by exchanging          *)
(* neighbours that are out of order ends, from every list, in the sorted permutation.             *)
EXTENDS OsmModel, FiniteSets, TLC
CONSTANT MaxLen
VARIABLE list, start
Ids == {WInt(-1), WInt(0), WInt(7), WAdd(WMulS(WInt(1000000000), 9), WInt(1)), WNeg(WMulS(WInt(1000000000), 9))}
Vers == {WInt(-2147483647), WInt(1), WInt(2147483647)}
El(t, i, v) == [t |-> t, id |-> i, ver |-> v]
Dom == {El(t, i, v) : t \in {"n", "w", "r"}, i \in Ids, v \in Vers} \cup {El("s", WZero, WZero)}
ASSUME Total == \A a, b \in Dom : Cardinality({x \in {1, 2, 3} : (x = 1 /\ ElemLt(a, b)) \/ (x = 2 /\ ElemEq(a, b)) \/ (x = 3 /\ ElemLt(b, a))}) = 1
ASSUME Transitive == \A a, b, c \in Dom : (ElemLt(a, b) /\ ElemLt(b, c)) => ElemLt(a, c)
ASSUME EqIsIdentity == \A a, b \in Dom : ElemEq(a, b) <=> a = b
Small == {El("n", WInt(-1), WInt(1)), El("n", WInt(2), WInt(1)), El("w", WInt(-5), WInt(2)), El("s", WZero, WZero)}
Init == list \in UNION {[1..n -> Small] : n \in 0..MaxLen} /\ start = list
Swap(i) == /\ ElemLt(list[i + 1], list[i])
           /\ list' = [list EXCEPT ![i] = list[i + 1], ![i + 1] = list[i]] /\ UNCHANGED start
Next == \E i \in 1..(Len(list) - 1) : Swap(i)
Spec == Init /\ [][Next]_<<list, start>> /\ WF_<<list, start>>(Next)
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Sorted == \A i \in 1..(Len(list) - 1) : ~ElemLt(list[i + 1], list[i])
Permutation == \A x \in Small : Occ(list, x) = Occ(start, x)
(* at most one sorted arrangement exists *)
Unique == Sorted => \A i, j \in DOMAIN list : i < j => (ElemLt(list[i], list[j]) \/ ElemEq(list[i], list[j]))
Ends == <>Sorted
=============================================================================
