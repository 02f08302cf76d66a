------------------------------ MODULE TraceTrip ------------------------------
(* Observed round trips: T.h is the history written to a dump (in OSM order), T.got what reading  *)
(* the dump returned. mode = "full": elements in full form. mode = "key": long histories of       *)
(* synthetic elements in key form.                                                                 *)
EXTENDS DumpModel, TraceLib
VARIABLES tid, pos
vars == <<tid, pos>>
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0
H == T.h
G == T.got
Full == T.mode = "full"
(* the user of a changeset, and the name of a user, as last recorded *)
LastWhere(S) == CHOOSE i \in S : \A j \in S : j <= i
UidOf(cs) == H[LastWhere({i \in DOMAIN H : H[i].cs = cs})].uid
NameOf(uid) == H[LastWhere({i \in DOMAIN H : H[i].uid = uid})].user
AsRead(e) == LET u == UidOf(e.cs) IN [e EXCEPT !.uid = u, !.user = NameOf(u)]
Is(e, g) == IF Full THEN e.t = g.t /\ SameStoredTagSet(AsRead(e), g) ELSE e = g
RankOf(e) == IF Full THEN Rank(e.t) ELSE e[1]
(* history position of the p-th returned element; 0 where a sentinel is due *)
Count(r) == Cardinality({i \in DOMAIN H : RankOf(H[i]) <= r})
Counts == TLCEval([n \in 1..NTraces |-> LET h == Traces[n].h  f == Traces[n].mode = "full" IN
             [r \in 1..3 |-> Cardinality({i \in DOMAIN h : (IF f THEN Rank(h[i].t) ELSE h[i][1]) <= r})]])
C == Counts[tid]
At(p) == IF p <= C[1] THEN p ELSE IF p = C[1] + 1 THEN 0 ELSE IF p <= C[2] + 1 THEN p - 1 ELSE IF p = C[2] + 2 THEN 0
         ELSE IF p <= C[3] + 2 THEN p - 2 ELSE 0
Step ==
  /\ pos < Len(H) + 3 /\ pos < Len(G)
  /\ LET p == pos + 1 IN
       TRUE = (IF At(p) = 0 THEN RankOf(G[p]) = 4 ELSE RankOf(G[p]) < 4 /\ Is(H[At(p)], G[p]))
  /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
End == pos = Len(H) + 3 /\ Len(G) = Len(H) + 3 /\ T.end = "ok" /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.h) + 4
Post == Verdict(Total)
=============================================================================
