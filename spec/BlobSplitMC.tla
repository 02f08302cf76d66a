---------------------------- MODULE BlobSplitMC ----------------------------
(* The recursion as a stack of parts, for every sequence of element sizes: parts are written in order *)
(* if they fit, cut in halves if not, and writing fails if a single element does not fit. Some blobs   *)
(* may then be in the file already, as after any error.                                                 *)
EXTENDS BlobSplit
CONSTANTS MaxLen, Sizes
VARIABLES block, todo, blobs, state
vars == <<block, todo, blobs, state>>
Init == /\ block \in UNION {[1..n -> Sizes] : n \in 0..MaxLen}
        /\ todo = <<block>> /\ blobs = <<>> /\ state = "busy"
Emit == state = "busy" /\ todo # <<>> /\ Fits(Head(todo)) /\ blobs' = Append(blobs, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<block, state>>
Cut == state = "busy" /\ todo # <<>> /\ ~Fits(Head(todo)) /\ Len(Head(todo)) >= 2 /\ todo' = Halves(Head(todo)) \o Tail(todo) /\ UNCHANGED <<block, blobs, state>>
Refuse == state = "busy" /\ todo # <<>> /\ ~Fits(Head(todo)) /\ Len(Head(todo)) < 2 /\ state' = "err" /\ UNCHANGED <<block, blobs, todo>>
Finish == state = "busy" /\ todo = <<>> /\ state' = "ok" /\ UNCHANGED <<block, blobs, todo>>
Next == Emit \/ Cut \/ Refuse \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Flatten(_)
Flatten(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Flatten(Tail(bs))
AllFit == \A i \in DOMAIN blobs : Fits(blobs[i])
Complete == Flatten(blobs) \o Flatten(todo) = block
NoneLost == state = "ok" => Flatten(blobs) = block
Judged == /\ state = "ok" => Writable(block)
          /\ state = "err" => ~Writable(block)
NotCutInVain == Fits(block) => Len(blobs) <= 1
Ends == <>(state # "busy")
=============================================================================
