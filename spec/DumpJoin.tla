------------------------------ MODULE DumpJoin ------------------------------
(* How the reader of a dump assembles elements: parents (versions) and children (their rows)  *)
(* are sorted by primary key; for each parent the children with its key are taken from the     *)
(* front of the child list, and the first that belongs to a later parent stays pending. The    *)
(* parent rows exist for every child row (foreign keys). Keys are pairs <<id, version>>, a      *)
(* child is <<id, version, payload>>.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES parents, kids, pending, out
jvars == <<parents, kids, pending, out>>
PLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ Len(a) > 2 /\ a[3] < b[3])))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ PLt(x, y) IN <<m>> \o Sorted(S \ {m})
KeyOf(c) == <<c[1], c[2]>>
JInit(P, C) == parents = Sorted(P) /\ kids = Sorted(C) /\ pending = <<>> /\ out = <<>>
(* the children at the front of s that belong to p *)
RECURSIVE Front(_, _)
Front(s, p) == IF s = <<>> \/ KeyOf(s[1]) # p THEN 0 ELSE 1 + Front(Tail(s), p)
Step ==
  /\ parents # <<>>
  /\ LET p == parents[1]
         all == pending \o kids
         n == Front(all, p)
         rest == SubSeq(all, n + 1, Len(all))
     IN /\ out' = Append(out, <<p, SubSeq(all, 1, n)>>)
        /\ pending' = (IF rest = <<>> THEN <<>> ELSE <<rest[1]>>)
        /\ kids' = (IF rest = <<>> THEN <<>> ELSE Tail(rest))
  /\ parents' = Tail(parents)
=============================================================================
