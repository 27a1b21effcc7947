-------------------------------- MODULE Num --------------------------------
(* Scaled-integer arithmetic shared by all modules. TLC integers are 32 bit, *)
(* so every quantity that crosses the code/spec boundary is a fixed point     *)
(* number whose unit is documented where it is used.                          *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
(* integer division rounded to nearest (b > 0) *)
DivPos(a, b) == LET q == a \div b  r == a % b IN IF r >= b - r THEN q + 1 ELSE q
DivR(a, b) == IF a >= 0 THEN DivPos(a, b) ELSE -DivPos(-a, b)
(* a * m / b for operands whose product may exceed 32 bits, |a/b*m| small *)
MulDiv(a, m, b) == IF a >= 0 THEN (a \div b) * m + DivR((a % b) * m, b)
                   ELSE -(((-a) \div b) * m + DivR(((-a) % b) * m, b))
(* a * m / b exactly, |a| * m up to 2^60 as long as the result fits; b <= 10^6, 0 <= m < 2^21 *)
MulDivP(a, m, b) ==
  LET q == a \div b  r == a % b  mh == m \div 1024  ml == m % 1024
      q1 == (r * mh) \div b  r1 == (r * mh) % b
  IN q * m + q1 * 1024 + DivR(r1 * 1024 + r * ml, b)
MulDivX(a, m, b) == LET s == IF m < 0 THEN -a ELSE a  n == Abs(m) IN IF s >= 0 THEN MulDivP(s, n, b) ELSE -MulDivP(-s, n, b)
RECURSIVE SumRange(_, _, _)
SumRange(s, a, b) == IF a > b THEN 0 ELSE IF a = b THEN s[a] ELSE LET m == (a + b) \div 2 IN SumRange(s, a, m) + SumRange(s, m + 1, b)
SumSeq(s) == SumRange(s, 1, Len(s))
MinSeq(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x <= s[i]
MaxSeq(s) == CHOOSE x \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : x >= s[i]
Bit(b, name) == IF b THEN {} ELSE {name}
=============================================================================
