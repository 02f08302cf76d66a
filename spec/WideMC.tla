------------------------------ MODULE WideMC ------------------------------
(* Wide agrees with TLC's native integers wherever both are defined, and wide results *)
(* satisfy the ring and order laws beyond 32 bits.                                     *)
EXTENDS Wide, TLC
Small == {-70000, -32769, -32768, -32767, -1000, -1, 0, 1, 2, 99, 100, 999, 1000, 32767, 32768, 32769, 40000, 65536, 100000}
Big == {WMul(WInt(a), WInt(b)) : a \in {-1000000000, -1, 1, 3, 1000000000}, b \in {1, 7, 1000000007}}
VARIABLES x, y
Init == x \in Small /\ y \in Small
Next == UNCHANGED <<x, y>>
SmallLaws ==
  /\ WVal(WInt(x)) = x
  /\ WAdd(WInt(x), WInt(y)) = WInt(x + y)
  /\ WSub(WInt(x), WInt(y)) = WInt(x - y)
  /\ (WLt(WInt(x), WInt(y)) <=> x < y)
  /\ (y \in -1000..1000 /\ x \in -100000..100000 => WMul(WInt(x), WInt(y)) = WInt(x * y))
  /\ (y \in 1..32767 => WDivS(WInt(x), y) = WInt(x \div y) /\ WModS(WInt(x), y) = x % y)
BigLaws == \A u \in Big : LET v == WInt(x) w == WInt(y) IN
  /\ WMul(u, WAdd(v, w)) = WAdd(WMul(u, v), WMul(u, w))
  /\ WMul(u, v) = WMul(v, u)
  /\ WSub(WAdd(u, v), v) = u
  /\ (WLt(v, w) => WLt(WAdd(u, v), WAdd(u, w)))
  /\ (y \in 1..32767 => WAdd(WMulS(WDivS(u, y), y), WInt(WModS(u, y))) = u)
=============================================================================
