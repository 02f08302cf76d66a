---------------------------- MODULE PbfStreamMC ----------------------------
(* A reader of the framing as the library has it: read the length of the header, the header,  *)
(* then skip (sequential scan for block descriptors) and later fetch the body; for all small   *)
(* files and all cuts, it ends cleanly exactly at a boundary, and what it delivers are the      *)
(* complete blobs of known types (k), in order; the others are skipped, but must be there.                                                                   *)
EXTENDS PbfStream
CONSTANTS MaxFrames, LenBytes, Sizes
VARIABLES frames, cut, pos, st, out, idx
vars == <<frames, cut, pos, st, out, idx>>
Frame == [h : Sizes, b : Sizes \cup {0}, k : BOOLEAN]
Known == [i \in DOMAIN frames |-> frames[i].k]
RECURSIVE EndOf(_, _)
EndOf(f, k) == IF k = 0 THEN 0 ELSE EndOf(f, k - 1) + LenBytes + f[k].h + f[k].b
Ends(f) == [k \in 1..Len(f) |-> EndOf(f, k)]
Size(f) == EndOf(f, Len(f))
Init == /\ frames \in UNION {[1..k -> Frame] : k \in 0..MaxFrames}
        /\ cut \in 0..Size(frames)
        /\ pos = 0 /\ st = "len" /\ out = <<>> /\ idx = 1
Avail == cut - pos
ReadLen == /\ st = "len"
           /\ IF Avail <= 0 THEN st' = (IF Avail = 0 THEN "end" ELSE "fail") /\ UNCHANGED pos
              ELSE IF Avail < LenBytes THEN st' = "fail" /\ UNCHANGED pos
              ELSE st' = "header" /\ pos' = pos + LenBytes
           /\ UNCHANGED <<frames, cut, out, idx>>
ReadHeader == /\ st = "header"
              /\ IF Avail < frames[idx].h THEN st' = "fail" /\ UNCHANGED pos
                 ELSE st' = "body" /\ pos' = pos + frames[idx].h
              /\ UNCHANGED <<frames, cut, out, idx>>
ReadBody == /\ st = "body"
            /\ IF Avail < frames[idx].b THEN st' = "fail" /\ UNCHANGED <<pos, out, idx>>
               ELSE st' = "len" /\ pos' = pos + frames[idx].b /\ out' = (IF frames[idx].k THEN Append(out, idx) ELSE out) /\ idx' = idx + 1
            /\ UNCHANGED <<frames, cut>>
Next == ReadLen \/ ReadHeader \/ ReadBody
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
CleanEndOnlyAtBoundary == st = "end" => Boundary(Ends(frames), cut) /\ out = KnownTo(Known, Complete(Ends(frames), cut))
FailOnlyInside == st = "fail" => ~Boundary(Ends(frames), cut) /\ out = KnownTo(Known, Complete(Ends(frames), cut))
Prefix == \E j \in 0..Len(frames) : out = KnownTo(Known, j)
Terminates == <>(st \in {"end", "fail"})
=============================================================================
