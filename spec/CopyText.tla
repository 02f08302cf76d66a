------------------------------ MODULE CopyText ------------------------------
(* The text format of the COPY command, on bytes: a row is a line, cells are separated by tab,   *)
(* the cell \N is the null value, and within a cell a backslash introduces                        *)
(*   b f n r t v   the control character,   1 to 3 octal digits or x and 1 to 2 hexadecimal       *)
(*   digits   the byte of that value,   any other character   that character.                     *)
EXTENDS Integers, Sequences
BS == 92
TAB == 9
LF == 10
CR == 13
Octal(c) == c >= 48 /\ c <= 55
Hex(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Ctl(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> -1

(* s[i..] decoded, appended to acc *)
RECURSIVE Un(_, _, _)
Un(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] # BS \/ i = Len(s) THEN Un(s, i + 1, Append(acc, s[i]))
  ELSE LET c == s[i + 1]
           Oct(j) == IF j <= Len(s) THEN Octal(s[j]) ELSE FALSE
           Hx(j) == IF j <= Len(s) THEN Hex(s[j]) ELSE FALSE
       IN IF Ctl(c) >= 0 THEN Un(s, i + 2, Append(acc, Ctl(c)))
          ELSE IF Octal(c)
          THEN IF Oct(i + 2)
               THEN IF Oct(i + 3)
                    THEN Un(s, i + 4, Append(acc, ((c - 48) * 64 + (s[i + 2] - 48) * 8 + (s[i + 3] - 48)) % 256))
                    ELSE Un(s, i + 3, Append(acc, (c - 48) * 8 + (s[i + 2] - 48)))
               ELSE Un(s, i + 2, Append(acc, c - 48))
          ELSE IF c = 120 /\ Hx(i + 2)
          THEN IF Hx(i + 3)
               THEN Un(s, i + 4, Append(acc, HexVal(s[i + 2]) * 16 + HexVal(s[i + 3])))
               ELSE Un(s, i + 3, Append(acc, HexVal(s[i + 2])))
          ELSE Un(s, i + 2, Append(acc, c))
Decode(s) == Un(s, 1, <<>>)
Null(cell) == cell = <<BS, 78>>

(* the cells of a line *)
RECURSIVE Split(_, _, _, _)
Split(s, i, cur, acc) ==
  IF i > Len(s) THEN Append(acc, cur)
  ELSE IF s[i] = TAB THEN Split(s, i + 1, <<>>, Append(acc, cur))
  ELSE Split(s, i + 1, Append(cur, s[i]), acc)
Cells(line) == Split(line, 1, <<>>, <<>>)

(* one way to write a text: what must be escaped is, nothing else *)
EscByte(c) ==
  CASE c = BS -> <<BS, BS>> [] c = 8 -> <<BS, 98>> [] c = 12 -> <<BS, 102>> [] c = LF -> <<BS, 110>>
    [] c = CR -> <<BS, 114>> [] c = TAB -> <<BS, 116>> [] c = 11 -> <<BS, 118>> [] OTHER -> <<c>>
RECURSIVE Enc(_, _)
Enc(s, i) == IF i > Len(s) THEN <<>> ELSE EscByte(s[i]) \o Enc(s, i + 1)
Encode(s) == Enc(s, 1)

(* a backslash stands before no point, which is for the end marker, and not at the end *)
RECURSIVE Plain(_, _)
Plain(s, i) == IF i > Len(s) THEN TRUE
               ELSE IF s[i] # BS THEN Plain(s, i + 1)
               ELSE IF i = Len(s) THEN FALSE ELSE IF s[i + 1] = 46 THEN FALSE ELSE Plain(s, i + 2)

(* what a writer may put into a cell for the text s: it must decode to s, stay within the cell and *)
(* the line, and be neither the null marker nor, at the start of a line, the end marker             *)
Writes(cell, s) ==
  /\ Decode(cell) = s
  /\ ~Null(cell)
  /\ \A i \in DOMAIN cell : cell[i] \notin {TAB, LF, CR, 0}
  /\ Plain(cell, 1)
=============================================================================
