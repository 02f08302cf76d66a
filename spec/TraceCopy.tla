----------------------------- MODULE TraceCopy -----------------------------
(* Observed texts of tables. T.lines are the rows of a data file as bytes, T.cols the columns    *)
(* that are looked at, T.width the declared number of columns.                                    *)
(* dir = "write": T.want are the texts given to the writer, one tuple for each row: each is found *)
(*   in some row, no row is left over, and every cell is one that a COPY reader accepts.          *)
(* dir = "read": T.want are the texts of the elements the reader returned for those rows.         *)
EXTENDS CopyText, TraceLib
VARIABLES tid, pos
vars == <<tid, pos>>
T == Traces[tid]
ASSUME ResetProgress
Init == tid \in 1..NTraces /\ pos = 0
Row(t, i) == LET c == Cells(t.lines[i]) IN
  [width |-> Len(c), raw |-> [k \in DOMAIN t.cols |-> IF t.cols[k] <= Len(c) THEN c[t.cols[k]] ELSE <<0>>]]
Dec(t, i) == LET r == Row(t, i) IN [width |-> r.width, raw |-> r.raw, text |-> [k \in DOMAIN r.raw |-> Decode(r.raw[k])]]
Rows == TLCEval([n \in 1..NTraces |-> [i \in DOMAIN Traces[n].lines |-> Dec(Traces[n], i)]])
R == Rows[tid]
Found(w) == \E i \in DOMAIN R : R[i].text = w
LineOk(i) ==
  /\ R[i].width = T.width
  /\ (T.dir = "write" => \A k \in DOMAIN R[i].raw : Writes(R[i].raw[k], R[i].text[k]))
  /\ (T.dir = "write" => \A k \in DOMAIN T.lines[i] : T.lines[i][k] \notin {LF, CR, 0})
  /\ \E j \in DOMAIN T.want : T.want[j] = R[i].text
Want == pos < Len(T.want) /\ TRUE = Found(T.want[pos + 1]) /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Line == /\ pos >= Len(T.want) /\ pos < Len(T.want) + Len(T.lines)
        /\ TRUE = LineOk(pos - Len(T.want) + 1) /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
End == /\ pos = Len(T.want) + Len(T.lines) /\ T.end = "ok" /\ Len(T.want) = Len(T.lines)
       /\ pos' = pos + 1 /\ Progress(tid, pos + 1) /\ UNCHANGED tid
Next == Want \/ Line \/ End
Spec == Init /\ [][Next]_vars
Total(t) == Len(t.want) + Len(t.lines) + 1
Post == Verdict(Total)
=============================================================================
