------------------------------- MODULE Wide -------------------------------
(* 64 bit integers for TLC (whose integers have 32 bits): five limbs in base 2^15,   *)
(* most significant first, the first one signed and the others in 0..2^15-1.         *)
(*   value(w) = ((((w[1]*B + w[2])*B + w[3])*B + w[4])*B + w[5]                       *)
EXTENDS Integers, Sequences

WB == 32768

WNorm(a, b, c, d, e) ==
  LET c5 == e \div WB
      c4 == (d + c5) \div WB
      c3 == (c + c4) \div WB
      c2 == (b + c3) \div WB
  IN <<a + c2, (b + c3) % WB, (c + c4) % WB, (d + c5) % WB, e % WB>>

WInt(n) == WNorm(0, 0, 0, 0, n)
WZero == <<0, 0, 0, 0, 0>>
WAdd(x, y) == WNorm(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4], x[5] + y[5])
WSub(x, y) == WNorm(x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4], x[5] - y[5])
WNeg(x) == WSub(WZero, x)

WLt(x, y) ==
  \/ x[1] < y[1]
  \/ x[1] = y[1] /\ \/ x[2] < y[2]
                    \/ x[2] = y[2] /\ \/ x[3] < y[3]
                                      \/ x[3] = y[3] /\ \/ x[4] < y[4]
                                                        \/ x[4] = y[4] /\ x[5] < y[5]
WLeq(x, y) == x = y \/ WLt(x, y)
WAbs(x) == IF x[1] < 0 THEN WNeg(x) ELSE x
WMin(x, y) == IF WLt(x, y) THEN x ELSE y
WMax(x, y) == IF WLt(x, y) THEN y ELSE x

(* product with a small factor, |k| < 2^15 *)
WMulS(x, k) == \* carries keep every intermediate value below 2^31
  LET p5 == x[5] * k
      p4 == x[4] * k + (p5 \div WB)
      p3 == x[3] * k + (p4 \div WB)
      p2 == x[2] * k + (p3 \div WB)
  IN <<x[1] * k + (p2 \div WB), p2 % WB, p3 % WB, p4 % WB, p5 % WB>>
WShift(x) == <<x[1] * WB + x[2], x[3], x[4], x[5], 0>>
WMul(x, y) ==
  LET m1 == WMulS(x, y[1])
      m2 == WAdd(WShift(m1), WMulS(x, y[2]))
      m3 == WAdd(WShift(m2), WMulS(x, y[3]))
      m4 == WAdd(WShift(m3), WMulS(x, y[4]))
  IN WAdd(WShift(m4), WMulS(x, y[5]))

(* floor quotient and remainder by a small divisor, 0 < k < 2^15 *)
WQR(x, k) ==
  LET q1 == x[1] \div k  r1 == x[1] % k
      v2 == r1 * WB + x[2]
      q2 == v2 \div k    r2 == v2 % k
      v3 == r2 * WB + x[3]
      q3 == v3 \div k    r3 == v3 % k
      v4 == r3 * WB + x[4]
      q4 == v4 \div k    r4 == v4 % k
      v5 == r4 * WB + x[5]
  IN [q |-> <<q1, q2, q3, q4, v5 \div k>>, r |-> v5 % k]
WDivS(x, k) == WQR(x, k).q
WModS(x, k) == WQR(x, k).r

WVal(w) == (((w[1] * WB + w[2]) * WB + w[3]) * WB + w[4]) * WB + w[5]   \* only for small values
=============================================================================
