----------------------------- MODULE ModelText -----------------------------
(* Values of the model as texts: a bounding box is "left,bottom,right,top" in degrees with white  *)
(* space around the commas, a time is ISO 8601 in whole seconds. Texts are sequences of bytes,     *)
(* numbers wide (Wide.tla) in units of 1e-9 degrees, times wide in microseconds or seconds.        *)
EXTENDS Wide, Sequences, FiniteSets, TLC

Digit(c) == c \in 48..57
Space(c) == c \in {9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_)
TrimL(s) == IF s = <<>> THEN s ELSE IF Space(s[1]) THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s = <<>> THEN s ELSE IF Space(s[Len(s)]) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))
RECURSIVE Split(_, _)
Split(s, c) ==
  LET at == {i \in DOMAIN s : s[i] = c}
  IN IF at = {} THEN <<s>>
     ELSE LET k == CHOOSE i \in at : \A j \in at : i <= j
          IN <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)), c)
RECURSIVE ValueOf(_, _)
ValueOf(ds, w) == IF ds = <<>> THEN w ELSE ValueOf(Tail(ds), WAdd(WMulS(w, 10), WInt(ds[1] - 48)))
Zeros(n) == [i \in 1..n |-> 48]
Places == 9
(* a decimal number: a sign, digits, a point among them; at most nine places. <<>> if it is none *)
Number(s) ==
  LET signed == IF s = <<>> THEN FALSE ELSE s[1] \in {43, 45}
      u == IF signed THEN Tail(s) ELSE s
      p == Split(u, 46)
      int == p[1]
      frac == IF Len(p) = 2 THEN p[2] ELSE <<>>
      v == ValueOf(int \o frac \o Zeros(Places - Len(frac)), WZero)
  IN IF /\ Len(p) <= 2 /\ Len(int) + Len(frac) > 0 /\ Len(int) <= 9 /\ Len(frac) <= Places
        /\ \A i \in DOMAIN int : Digit(int[i])
        /\ \A i \in DOMAIN frac : Digit(frac[i])
     THEN <<IF signed /\ s[1] = 45 THEN WNeg(v) ELSE v>> ELSE <<>>
Giga(n) == WMulS(WMulS(WInt(n), 31250), 32000)                     \* n * 10^9
Within(w, n) == WLeq(WAbs(w), Giga(n))
(* the box a text stands for, or nothing *)
BoxOf(s) ==
  LET c == [i \in DOMAIN Split(s, 44) |-> Number(Trim(Split(s, 44)[i]))]
  IN IF Len(c) # 4 THEN <<>>
     ELSE IF \E i \in 1..4 : c[i] = <<>> THEN <<>>
     ELSE IF Within(c[1][1], 180) /\ Within(c[2][1], 90) /\ Within(c[3][1], 180) /\ Within(c[4][1], 90)
          THEN <<<<c[1][1], c[2][1], c[3][1], c[4][1]>>>> ELSE <<>>
(* numbers with an exponent, and those with more digits than are compared here, are not judged *)
Open(s) == (\E i \in DOMAIN s : s[i] \in {69, 101} /\ (IF i = 1 THEN FALSE ELSE Digit(s[i - 1]) \/ s[i - 1] = 46))
           \/ \E i \in 1..(Len(s) - 9) : \A j \in i..(i + 9) : Digit(s[j])
(* how a box is displayed: its four numbers with these words before them *)
LeftIs == <<108, 101, 102, 116, 58>>
BottomIs == <<98, 111, 116, 116, 111, 109, 58>>
RightIs == <<114, 105, 103, 104, 116, 58>>
TopIs == <<116, 111, 112, 58>>
Words == <<LeftIs, BottomIs, RightIs, TopIs>>
Shown(s) ==
  LET p == Split(s, 44)
      q == [i \in DOMAIN p |-> Trim(p[i])]
      cut(i) == IF SubSeq(q[i], 1, Len(Words[i])) = Words[i] THEN Number(Trim(SubSeq(q[i], Len(Words[i]) + 1, Len(q[i])))) ELSE <<>>
  IN IF Len(p) # 4 THEN <<>>
     ELSE IF \E i \in 1..4 : cut(i) = <<>> THEN <<>> ELSE <<[i \in 1..4 |-> cut(i)[1]]>>

(* degrees * 10^7, the nearest: a tie may go either way *)
Nearest7(nano, d) == WLeq(WAbs(WSub(nano, WMulS(d, 100))), WInt(50))

(* ---- times ---- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
(* days from 1970-01-01 to a date, by the usual formula; years 0 to 9999 *)
DaysTo(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
SecondsAt(y, m, d, h, i, s) == WAdd(WMulS(WMulS(WInt(DaysTo(y, m, d)), 300), 288), WInt(h * 3600 + i * 60 + s))
Num(s, a, b) == ValueOf(SubSeq(s, a, b), WZero)[5]
(* YYYY-MM-DDTHH:MM:SSZ *)
IsTime(s) ==
  IF Len(s) # 20 THEN FALSE
  ELSE /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : Digit(s[i])
       /\ s[5] = 45 /\ s[8] = 45 /\ s[11] = 84 /\ s[14] = 58 /\ s[17] = 58 /\ s[20] = 90
       /\ Num(s, 6, 7) \in 1..12 /\ Num(s, 9, 10) \in 1..MonthDays(Num(s, 1, 4), Num(s, 6, 7))
       /\ Num(s, 12, 13) \in 0..23 /\ Num(s, 15, 16) \in 0..59 /\ Num(s, 18, 19) \in 0..59
TimeOf(s) == SecondsAt(Num(s, 1, 4), Num(s, 6, 7), Num(s, 9, 10), Num(s, 12, 13), Num(s, 15, 16), Num(s, 18, 19))
WholeSeconds(us) == WDivS(WDivS(us, 1000), 1000)                  \* rounded down
FirstSecond == SecondsAt(0, 1, 1, 0, 0, 0)
LastSecond == SecondsAt(9999, 12, 31, 23, 59, 59)
InYears(us) == WLeq(FirstSecond, WholeSeconds(us)) /\ WLeq(WholeSeconds(us), LastSecond)
=============================================================================
