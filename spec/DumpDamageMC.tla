---------------------------- MODULE DumpDamageMC ----------------------------
(* All small databases, written as two files of rows (versions and their child rows, in any     *)
(* order) with an end marker, and every cut of either file. A reader that asks for the markers    *)
(* and, when it joins, for the parents of all rows never accepts a dump that has lost rows; what   *)
(* it delivers before it fails is as it was written.                                               *)
EXTENDS DumpJoin, TLC
CONSTANTS Ids, Vers, Pay
VARIABLES P, C, np, nc, end
vars == <<jvars, P, C, np, nc, end>>
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
(* np, nc: how many lines of each file are left; the marker is one line more than the rows. Rows without *)
(* a line removed one by one (lost) stand for parents that were never dumped.                             *)
Init == \E p \in SUBSET (Ids \X Vers), c \in SUBSET (Ids \X Vers \X Pay) :
  /\ \A x \in c : KeyOf(x) \in p
  /\ \E lost \in SUBSET p, fp \in Perms(p), fc \in Perms(c) : \E a \in 0..(Len(fp) + 1), b \in 0..(Len(fc) + 1) :
       /\ (lost = {} \/ (a = Len(fp) + 1 /\ b = Len(fc) + 1))
       /\ P = p /\ C = c /\ np = Len(fp) + 1 - a /\ nc = Len(fc) + 1 - b
       /\ JInit({fp[i] : i \in 1..(IF a > Len(fp) THEN Len(fp) ELSE a)} \ lost, {fc[i] : i \in 1..(IF b > Len(fc) THEN Len(fc) ELSE b)})
       /\ end = IF a <= Len(fp) \/ b <= Len(fc) THEN "failed" ELSE "run"
Before(all, p) == all # <<>> /\ PLt(KeyOf(all[1]), p)
Join ==
  /\ end = "run"
  /\ IF parents = <<>>
     THEN /\ end' = (IF pending \o kids = <<>> THEN "ok" ELSE "failed") /\ UNCHANGED jvars
     ELSE IF Before(pending \o kids, parents[1]) THEN end' = "failed" /\ UNCHANGED jvars
     ELSE Step /\ UNCHANGED end
Next == Join /\ UNCHANGED <<P, C, np, nc>>
Spec == Init /\ [][Next]_vars
Whole == end = "ok" => {out[i][1] : i \in DOMAIN out} \subseteq P /\ UNION {{out[i][2][j] : j \in DOMAIN out[i][2]} : i \in DOMAIN out} = C
NeverCut == end = "ok" => np = 0 /\ nc = 0
AsWritten == \A i \in DOMAIN out : out[i][1] \in P /\ {out[i][2][j] : j \in DOMAIN out[i][2]} = {c \in C : KeyOf(c) = out[i][1]}
=============================================================================
