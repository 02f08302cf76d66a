----------------------------- MODULE Resources -----------------------------
(* What a process holds of the operating system on behalf of the library: open files and threads.   *)
(* Handles are what a user keeps (a reader, an iterator, a writer). A call acquires files and         *)
(* threads step by step, may fail at every step, and lets go of everything but what its handle keeps. *)
(*   open   the handles in use             keeps  files each of them holds                             *)
(*   call   the call that is running: "none" or the kind and the handle                                *)
(*   files, threads   of the running call                                                               *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Handles, FileMax, ThreadMax, PerHandle
VARIABLES open, keeps, call, files, threads
vars == <<open, keeps, call, files, threads>>

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Held == SumOver(keeps, Handles) + files

Init == open = {} /\ keeps = [h \in Handles |-> 0] /\ call = "none" /\ files = 0 /\ threads = 0

Begin == call = "none" /\ call' = "busy" /\ UNCHANGED <<open, keeps, files, threads>>
TakeFile == call = "busy" /\ files < FileMax /\ files' = files + 1 /\ UNCHANGED <<open, keeps, call, threads>>
TakeThread == call = "busy" /\ threads < ThreadMax /\ threads' = threads + 1 /\ UNCHANGED <<open, keeps, call, files>>
(* the call fails, or returns: what it took is let go *)
Release ==
  /\ call \in {"busy", "ends"} /\ files + threads > 0
  /\ \/ files > 0 /\ files' = files - 1 /\ UNCHANGED threads
     \/ threads > 0 /\ threads' = threads - 1 /\ UNCHANGED files
  /\ call' = "ends" /\ UNCHANGED <<open, keeps>>
Return == call \in {"busy", "ends"} /\ files = 0 /\ threads = 0 /\ call' = "none" /\ UNCHANGED <<open, keeps, files, threads>>
(* the call has made a handle, which keeps some of the files *)
ReturnHandle(h) ==
  /\ call = "busy" /\ threads = 0 /\ h \notin open /\ files <= PerHandle
  /\ open' = open \cup {h} /\ keeps' = [keeps EXCEPT ![h] = files]
  /\ files' = 0 /\ call' = "none" /\ UNCHANGED threads
(* using a handle may open a file it keeps *)
Use(h) == call = "none" /\ h \in open /\ \E k \in 0..PerHandle : keeps' = [keeps EXCEPT ![h] = k] /\ UNCHANGED <<open, call, files, threads>>
Drop(h) == call = "none" /\ h \in open /\ open' = open \ {h} /\ keeps' = [keeps EXCEPT ![h] = 0] /\ UNCHANGED <<call, files, threads>>

Next == Begin \/ TakeFile \/ TakeThread \/ Release \/ Return \/ \E h \in Handles : ReturnHandle(h) \/ Use(h) \/ Drop(h)
Spec == Init /\ [][Next]_vars /\ WF_vars(Return) /\ WF_vars(Release) /\ WF_vars(call = "ends" /\ (Release \/ Return))

(* what can be held at rest with these handles in use *)
AtRest(held, busy, inuse, per) == busy = 0 /\ held >= 0 /\ held <= per * inuse
Bounded == call = "none" => AtRest(Held, threads, Cardinality(open), PerHandle)
NothingLeft == call = "none" /\ open = {} => Held = 0 /\ threads = 0
Returns == call = "ends" ~> call = "none"
=============================================================================
