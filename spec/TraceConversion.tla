-------------------------- MODULE TraceConversion --------------------------
(* Observed chains of conversions. T.stages is a sequence of [to, els, end]: first the content the *)
(* source was made with (to = "given"), then the source as read ("pbf" or "dump"), then for each     *)
(* conversion what reading its result returned. Each step judges one element or the end of a stage.  *)
(* mode = "full": elements in full form; "key": long contents in key form, tags sorted.             *)
EXTENDS Conversion, DumpModel, TraceLib
VARIABLES tid, st, pos, n
vars == <<tid, st, pos, n>>
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ st = 1 /\ pos = 0 /\ n = 0
S == T.stages[st]
G == S.els
R(k, e) == IF k THEN e[1] ELSE Rank(e.t)
(* what each stage hands on, without sentinels, and how many elements up to each type *)
Handed == TLCEval([i \in 1..NTraces |-> LET k == Traces[i].mode = "key" IN
            [s \in DOMAIN Traces[i].stages |-> SelectSeq(Traces[i].stages[s].els, LAMBDA e : R(k, e) < 4)]])
Upto == TLCEval([i \in 1..NTraces |-> LET k == Traces[i].mode = "key" IN
            [s \in DOMAIN Traces[i].stages |-> LET h == Handed[i][s] IN [r \in 1..3 |-> Cardinality({j \in DOMAIN h : R(k, h[j]) <= r})]]])
From == IF st = 1 THEN 1 ELSE st - 1
H == Handed[tid][From]
C == Upto[tid][From]
(* position in the given content of the p-th element read; 0 where a sentinel is due *)
At(p) == IF S.to # "dump" THEN p
         ELSE IF p <= C[1] THEN p ELSE IF p = C[1] + 1 THEN 0 ELSE IF p <= C[2] + 1 THEN p - 1 ELSE IF p = C[2] + 2 THEN 0
         ELSE IF p <= C[3] + 2 THEN p - 2 ELSE 0
Due == Len(H) + IF S.to = "dump" THEN 3 ELSE 0
(* the rows of a source may have fractions of seconds *)
Floored(g, r) == IF st = 2 /\ WLt(WAbs(WSub(g.ts, r.ts)), WInt(1000)) THEN [r EXCEPT !.ts = g.ts] ELSE r
Is(g, r) ==
  CASE st = 1 -> g = r
    [] T.mode = "key" -> g = r
    [] S.to = "pbf" -> g = r
    [] S.to = "dump" -> g.t = r.t /\ SameStoredTagSet(Recorded(H, g), Floored(g, r))
    [] OTHER -> g.t = r.t /\ SameStored(g, r)
Adv == n' = n + 1 /\ Progress(tid, n + 1) /\ UNCHANGED tid
Element ==
  /\ pos < Due /\ pos < Len(G)
  /\ LET p == pos + 1 IN TRUE = (IF At(p) = 0 THEN R(T.mode = "key", G[p]) = 4 ELSE IF R(T.mode = "key", G[p]) < 4 THEN Is(H[At(p)], G[p]) ELSE FALSE)
  /\ pos' = pos + 1 /\ Adv /\ UNCHANGED st
Complete == pos = Due /\ Len(G) = Due /\ S.end = "ok"
StageEnd == Complete /\ st <= Len(T.stages) /\ st' = st + 1 /\ pos' = 0 /\ Adv
Next == st <= Len(T.stages) /\ (Element \/ StageEnd)
Spec == Init /\ [][Next]_vars
RECURSIVE Steps(_, _)
Steps(t, s) == IF s > Len(t.stages) THEN 0 ELSE Len(t.stages[s].els) + 1 + Steps(t, s + 1)
Total(t) == Steps(t, 1)
Post == Verdict(Total)
=============================================================================
