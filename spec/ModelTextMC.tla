---------------------------- MODULE ModelTextMC ----------------------------
(* The operators of ModelText against independent definitions: numbers printed in every way read   *)
(* back as the same number, boxes with and without white space, and the formula for dates against    *)
(* counting days one at a time.                                                                        *)
EXTENDS ModelText
CONSTANTS LastYear
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
(* a calendar that counts, from 1600-01-01 *)
Init == y = 1600 /\ m = 1 /\ d = 1 /\ n = DaysTo(1600, 1, 1)
Next == /\ y <= LastYear /\ n' = n + 1
        /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars
Counted == n = DaysTo(y, m, d)
ASSUME DaysTo(1970, 1, 1) = 0 /\ DaysTo(2000, 2, 29) = 11016 /\ SecondsAt(2001, 9, 9, 1, 46, 40) = Giga(1)

D2(k) == <<48 + (k \div 10), 48 + (k % 10)>>
D4(k) == D2(k \div 100) \o D2(k % 100)
Text == D4(y) \o <<45>> \o D2(m) \o <<45>> \o D2(d) \o <<84>> \o D2(d % 24) \o <<58>> \o D2(m * 4) \o <<58>> \o D2(d + 28) \o <<90>>
Reads == IsTime(Text) /\ TimeOf(Text) = WAdd(WMulS(WMulS(WInt(n), 300), 288), WInt((d % 24) * 3600 + m * 240 + d + 28))

(* numbers: k thousandths, printed with leading zeros, trailing zeros, a sign *)
Tri(k) == <<48 + (k \div 100), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
Dec(k, lead, trail, sign) == sign \o Zeros(lead) \o Tri(k \div 1000) \o <<46>> \o Tri(k % 1000) \o Zeros(trail)
Milli(k) == WMulS(WMulS(WInt(k), 1000), 1000)
Grid == {0, 1, 9, 10, 500, 999, 1000, 89999, 90000, 90001, 179999, 180000, 180001, 999999}
ASSUME \A k \in Grid, lead \in 0..3, trail \in 0..6 :
         /\ Number(Dec(k, lead, trail, <<>>)) = <<Milli(k)>>
         /\ Number(Dec(k, lead, trail, <<43>>)) = <<Milli(k)>>
         /\ Number(Dec(k, lead, trail, <<45>>)) = <<WNeg(Milli(k))>>
ASSUME \A s \in {<<>>, <<46>>, <<45>>, <<45, 46>>, <<49, 46, 50, 46, 51>>, <<49, 45>>, <<45, 45, 49>>, <<49, 32, 50>>, <<110, 97, 110>>} : Number(s) = <<>>
ASSUME Number(<<46, 53>>) = <<Milli(500)>> /\ Number(<<53, 46>>) = <<Milli(5000)>> /\ Number(<<53>>) = <<Milli(5000)>>
Spaces == {<<>>, <<32>>, <<9, 32>>}
ASSUME \A a, c \in {0, 179999, 180000, 180001}, b \in {0, 90000, 90001}, sp \in Spaces, sg \in {<<>>, <<45>>} :
         LET p(k) == sp \o Dec(k, 0, 0, sg) \o sp
             v(k) == IF sg = <<>> THEN Milli(k) ELSE WNeg(Milli(k))
             box == BoxOf(p(a) \o <<44>> \o p(b) \o <<44>> \o p(c) \o <<44>> \o p(5))
         IN IF a <= 180000 /\ b <= 90000 /\ c <= 180000 THEN box = <<<<v(a), v(b), v(c), v(5)>>>> ELSE box = <<>>
=============================================================================
