------------------------------- MODULE Header -------------------------------
(* The header of a PBF file: what writing, reading and opening promise. A header is          *)
(* [bbox, req, opt, prog, src, rts, rseq, rurl]; bbox and the scalar fields are sequences     *)
(* of length zero (not set) or one; bbox holds left, bottom, right, top in nanodegrees.       *)
EXTENDS Integers, Sequences, FiniteSets

Supported == {"OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"}
Range(s) == {s[i] : i \in DOMAIN s}
CanOpen(h) == Range(h.req) \subseteq Supported
(* the header a writer declares that was made from explicit parameters *)
NewHeader(p) ==
  [bbox |-> p.bbox,
   req |-> IF p.history THEN <<"OsmSchema-V0.6", "DenseNodes", "HistoricalInformation">> ELSE <<"OsmSchema-V0.6", "DenseNodes">>,
   opt |-> <<"Sort.Type_then_ID">>,
   prog |-> <<p.prog>>, src |-> <<p.src>>, rts |-> p.rts, rseq |-> p.rseq, rurl |-> p.rurl]
=============================================================================
