----------------------------- MODULE CopyTextMC -----------------------------
(* All short texts over the bytes that matter: what Encode writes reads back as the text, from *)
(* any position in a row, and no two cells merge or split.                                       *)
EXTENDS CopyText, TLC
CONSTANTS Max
Alphabet == {BS, TAB, LF, CR, 11, 78, 46, 110, 120, 48, 55, 65, 195}
VARIABLES a
Init == a = <<>>
Next == Len(a) < Max /\ \E c \in Alphabet : a' = Append(a, c)
Spec == Init /\ [][Next]_a
RoundTrip == Writes(Encode(a), a)
OneCell ==
  LET line == Encode(a) \o <<TAB>> \o Encode(<<BS>> \o a) \o <<TAB>> \o Encode(a \o <<TAB>>)
  IN Cells(line) = <<Encode(a), Encode(<<BS>> \o a), Encode(a \o <<TAB>>)>>
(* decoding needs every escape: the raw text decodes to itself only without a backslash *)
Needed == (\A i \in DOMAIN a : a[i] # BS) => Decode(a) = a
=============================================================================
