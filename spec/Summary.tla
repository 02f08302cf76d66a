------------------------------ MODULE Summary ------------------------------
(* Counting objects and computing the bounding box of the nodes of a file. Points are        *)
(* <<lat, lon>> and boxes [l, b, r, t] of wide integers (nanodegrees); "no box yet" is <<>>,  *)
(* a box is <<box>>.                                                                          *)
EXTENDS Wide, SequencesExt

BoxOf(p) == [l |-> p[2], b |-> p[1], r |-> p[2], t |-> p[1]]
Join(x, y) == [l |-> WMin(x.l, y.l), b |-> WMin(x.b, y.b), r |-> WMax(x.r, y.r), t |-> WMax(x.t, y.t)]
AddPoint(box, p) == IF box = <<>> THEN <<BoxOf(p)>> ELSE <<Join(box[1], BoxOf(p))>>
AddBox(box, o) == IF o = <<>> THEN box ELSE IF box = <<>> THEN o ELSE <<Join(box[1], o[1])>>
RECURSIVE BoxOfPoints(_)
BoxOfPoints(ps) == IF ps = <<>> THEN <<>> ELSE AddPoint(BoxOfPoints(SubSeq(ps, 1, Len(ps) - 1)), ps[Len(ps)])

BoxOfPointsFast(ps) == FoldLeft(AddPoint, <<>>, ps)      \* the same, evaluated quickly

(* what "smallest box that contains all points" means, independent of how it is computed *)
Inside(box, p) == WLeq(box.l, p[2]) /\ WLeq(p[2], box.r) /\ WLeq(box.b, p[1]) /\ WLeq(p[1], box.t)
Smallest(box, S) ==
  /\ \A p \in S : Inside(box, p)
  /\ \E p \in S : p[2] = box.l
  /\ \E p \in S : p[2] = box.r
  /\ \E p \in S : p[1] = box.b
  /\ \E p \in S : p[1] = box.t
=============================================================================
