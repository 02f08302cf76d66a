----------------------------- MODULE SummaryMC -----------------------------
(* The parallel computation: workers take blocks, fold the points of a block into a local     *)
(* box step by step, and merge it into the shared result under a lock; counters are atomic.    *)
(* For all small files and all interleavings the result is the smallest box and the exact      *)
(* count, and there is no box exactly if there are no points.                                  *)
EXTENDS Summary, FiniteSets, TLC
CONSTANTS Workers, MaxBlocks, Coords, MaxPts
SmallCoords == {-3, 5}
VARIABLES file, todo, work, local, done, result, count
vars == <<file, todo, work, local, done, result, count>>
Pts == {<<WInt(x), WInt(y)>> : x \in Coords, y \in Coords}
Blocks == UNION {[1..n -> Pts] : n \in 0..MaxPts}
Files == UNION {[1..n -> Blocks] : n \in 0..MaxBlocks}
Init == /\ file \in Files
        /\ todo = 1 /\ work = [w \in Workers |-> 0] /\ local = [w \in Workers |-> <<>>] /\ done = [w \in Workers |-> 0]
        /\ result = <<>> /\ count = 0
(* the queue is a queue, and workers are alike: the lowest idle worker takes the next block *)
Take(w) == /\ todo <= Len(file) /\ work[w] = 0 /\ \A v \in Workers : v < w => work[v] # 0
           /\ work' = [work EXCEPT ![w] = todo] /\ todo' = todo + 1
           /\ local' = [local EXCEPT ![w] = <<>>] /\ done' = [done EXCEPT ![w] = 0]
           /\ UNCHANGED <<file, result, count>>
Fold(w) == /\ work[w] # 0 /\ done[w] < Len(file[work[w]])
           /\ local' = [local EXCEPT ![w] = AddPoint(local[w], file[work[w]][done[w] + 1])]
           /\ done' = [done EXCEPT ![w] = @ + 1] /\ count' = count + 1
           /\ UNCHANGED <<file, todo, work, result>>
Merge(w) == /\ work[w] # 0 /\ done[w] = Len(file[work[w]])
            /\ result' = AddBox(result, local[w])
            /\ work' = [work EXCEPT ![w] = 0]
            /\ UNCHANGED <<file, todo, local, done, count>>
Next == \E w \in Workers : Take(w) \/ Fold(w) \/ Merge(w)
Spec == Init /\ [][Next]_vars
AllPts == UNION {{file[i][j] : j \in DOMAIN file[i]} : i \in DOMAIN file}
Finished == todo > Len(file) /\ \A w \in Workers : work[w] = 0
Exact == Finished => IF AllPts = {} THEN result = <<>> ELSE result # <<>> /\ Smallest(result[1], AllPts)
RECURSIVE Sum(_)
Sum(f) == IF f = <<>> THEN 0 ELSE Len(f[1]) + Sum(Tail(f))
CountExact == Finished => count = Sum(file)
=============================================================================
