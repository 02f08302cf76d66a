---------------------------- MODULE ParallelRead ----------------------------
(* Parallel iteration over a file, a sequence of data blocks (sequences of elements). The state    *)
(* of the visit: for each thread the block it is in and how far it has got, and the blocks that     *)
(* have been started. A thread leaves a block by visiting the sentinel after its last element, or    *)
(* because the callback failed on an element; whether the rest of that block is still visited is      *)
(* not promised.                                                                                      *)
EXTENDS Naturals, Sequences
NoBlock == [b |-> 0, at |-> 0, f |-> FALSE]
Fresh(threads) == [cur |-> [t \in threads |-> NoBlock], started |-> {}, finished |-> {}, failed |-> FALSE]
(* a thread that is in a block has to go on with it, unless the callback has failed there *)
MustGoOn(st, t) == st.cur[t].b # 0 /\ ~st.cur[t].f
(* thread t may visit block b from the beginning *)
MayStart(st, t, b) == ~MustGoOn(st, t) /\ b \notin st.started
Start(st, t, b) == [st EXCEPT !.cur[t] = [b |-> b, at |-> 0, f |-> FALSE], !.started = @ \cup {b}]
(* the next visit of a thread that is in a block: an element, or the sentinel at the end *)
IsElement(file, st, t, e) == LET c == st.cur[t] IN IF c.b = 0 THEN FALSE ELSE IF c.at < Len(file[c.b]) THEN file[c.b][c.at + 1] = e ELSE FALSE
IsSentinel(file, st, t) == LET c == st.cur[t] IN IF c.b = 0 THEN FALSE ELSE c.at = Len(file[c.b])
VisitElement(st, t, fails) ==
  [st EXCEPT !.cur[t] = [b |-> @.b, at |-> @.at + 1, f |-> @.f \/ fails], !.failed = @ \/ fails]
VisitSentinel(st, t, fails) ==
  [st EXCEPT !.cur[t] = NoBlock, !.finished = @ \cup {st.cur[t].b}, !.failed = @ \/ fails]
(* what a result means *)
ResultOk(file, st, r) ==
  IF st.failed THEN r = "err"
  ELSE r = "ok" /\ st.finished = DOMAIN file
=============================================================================
