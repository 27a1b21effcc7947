------------------------------- MODULE FixMath -----------------------------
(* Logarithm and exponential with integers: arguments and results of Ln are  *)
(* in 1e-5.                                                                   *)
EXTENDS Num
RECURSIVE Shift(_, _)
(* x * 2^k in 2^14..2^15-1 *)
Shift(x, k) == IF x < 16384 THEN Shift(2 * x, k - 1) ELSE IF x >= 32768 THEN Shift(x \div 2, k + 1) ELSE <<x, k>>
Ln2 == 69315
(* ln(x), x a positive integer, in 1e-5 *)
Ln(x) == LET s == Shift(x, 14)
             z == DivR((s[1] - 16384) * 100000, s[1] + 16384)
             z2 == DivR(z * z, 100000)
             z3 == MulDiv(z, z2, 100000)  z5 == MulDiv(z3, z2, 100000)  z7 == MulDiv(z5, z2, 100000)
         IN s[2] * Ln2 + 2 * (z + DivR(z3, 3) + DivR(z5, 5) + DivR(z7, 7))
RECURSIVE Series(_, _, _)
Series(r, term, n) == IF n > 9 \/ term = 0 THEN 0 ELSE LET t == DivR(MulDivX(term, r, 100000), n) IN t + Series(r, t, n + 1)
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* exp(y), y in 1e-5, in units of 1e-5 *)
Exp(y) == LET k == y \div Ln2  r == y % Ln2  e == 100000 + Series(r, 100000, 1)
          IN IF k >= 0 THEN e * Pow2(k) ELSE DivR(e, Pow2(-k))
(* linear interpolation in a table with knots x0, x0 + dx, ... *)
Tab(tab, x0, dx, x) == LET y == Clip(x - x0, 0, dx * (Len(tab) - 1) - 1)  i == y \div dx  f == y % dx
                       IN tab[i + 1] + MulDiv(tab[i + 2] - tab[i + 1], f, dx)
=============================================================================
