---------------------------- MODULE ConversionMC ----------------------------
(* All chains of conversions of small contents: coordinates move at most once, and by less than *)
(* one unit of the grid; after the first conversion nothing changes any more, except that the    *)
(* first dump of a chain settles the users and the order of the tags.                            *)
EXTENDS Conversion, TLC
CONSTANTS MaxStages, N
Grid == 3
Coords == -4..4
Els == [t : {"n"}, id : {1}, cs : {1, 2}, uid : {1, 2}, user : {"a", "b"}]
VARIABLES start, cur, chain, dumped
vars == <<start, cur, chain, dumped>>
Init == /\ \E h \in [1..N -> Els], c \in Coords, o \in {<<1, 2>>, <<2, 1>>} : cur = [h |-> h, c |-> c, tags |-> o]
        /\ start = cur /\ chain = <<>> /\ dumped = <<>>
OnGrid(c) == c % Grid = 0
Near(c) == {r \in (-4 - Grid)..(4 + Grid) : OnGrid(r) /\ r - c < Grid /\ c - r < Grid}
Stage(k) ==
  /\ Len(chain) < MaxStages
  /\ chain' = Append(chain, k)
  /\ \E c \in Near(cur.c), o \in (IF k = "dump" THEN {<<1, 2>>} ELSE {cur.tags}) :
       cur' = [h |-> IF k = "dump" THEN [i \in DOMAIN cur.h |-> Recorded(cur.h, cur.h[i])] ELSE cur.h, c |-> c, tags |-> o]
  /\ dumped' = IF k = "dump" /\ dumped = <<>> THEN <<cur'>> ELSE dumped
  /\ UNCHANGED start
Next == \E k \in {"seq", "par", "dump"} : Stage(k)
Spec == Init /\ [][Next]_vars
(* ---- *)
Stored == chain # <<>> => OnGrid(cur.c)
Close == cur.c - start.c < Grid /\ start.c - cur.c < Grid
Kept == OnGrid(start.c) => cur.c = start.c
(* what a dump has settled stays *)
Settled == dumped # <<>> => cur = dumped[1]
(* without a dump users and tags are as given *)
Untouched == dumped = <<>> => cur.h = start.h /\ cur.tags = start.tags
(* one user for each changeset, one name for each user, each recorded at some version of the start *)
OneUser == dumped # <<>> => \A i, j \in DOMAIN cur.h :
   /\ cur.h[i].cs = cur.h[j].cs => cur.h[i].uid = cur.h[j].uid
   /\ cur.h[i].uid = cur.h[j].uid => cur.h[i].user = cur.h[j].user
   /\ \E k \in DOMAIN start.h : start.h[k].cs = cur.h[i].cs /\ start.h[k].uid = cur.h[i].uid
   /\ \E k \in DOMAIN start.h : start.h[k].uid = cur.h[i].uid /\ start.h[k].user = cur.h[i].user
=============================================================================
