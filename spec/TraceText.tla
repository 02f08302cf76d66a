----------------------------- MODULE TraceText -----------------------------
(* Values of the model made from texts and turned into texts. Events:                             *)
(*   [k |-> "box", text, r, box, shown]  a text as a bounding box: how it ended, the box, and how    *)
(*                                        the box is displayed                                         *)
(*   [k |-> "show", box, shown]           a box made from numbers                                      *)
(*   [k |-> "time", us, r, text]          a time in microseconds as a text                              *)
(*   [k |-> "deg7", lat, lon, lat7, lon7] a coordinate in nanodegrees, and in units of 1e-7 degrees      *)
EXTENDS ModelText, TraceLib
VARIABLES tid, pos
vars == <<tid, pos>>
T == Traces[tid]
Ev == T.ev[pos + 1]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0
Box(e) ==
  LET b == BoxOf(e.text)
  IN IF Open(e.text) THEN e.r \in {"ok", "err"}
     ELSE IF b = <<>> THEN e.r = "err"
     ELSE e.r = "ok" /\ e.box = b[1] /\ Shown(e.shown) = b
Time(e) ==
  IF InYears(e.us) THEN IF e.r # "ok" THEN FALSE ELSE IF IsTime(e.text) THEN TimeOf(e.text) = WholeSeconds(e.us) ELSE FALSE
  ELSE e.r \in {"ok", "err"}
Holds(e) ==
  CASE e.k = "box" -> Box(e)
    [] e.k = "show" -> Shown(e.shown) = <<e.box>>
    [] e.k = "time" -> Time(e)
    [] e.k = "deg7" -> Nearest7(e.lat, e.lat7) /\ Nearest7(e.lon, e.lon7)
Check == pos < Len(T.ev) /\ TRUE = Holds(Ev) /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Spec == Init /\ [][Check]_vars
Total(t) == Len(t.ev)
Post == Verdict(Total)
=============================================================================
