------------------------------ MODULE TraceNtu -----------------------------
(* Real plate heat exchangers judged with Ntu. A side is [f, n, out]: flow     *)
(* (2^-20 kg/s), temperatures entering and of the neighbour behind, and the   *)
(* temperature leaving (mK). Margin of the conductance: 7 %.                  *)
EXTENDS Mon, Ntu
StX == 0
Margin == 7000
Share(x, d) == MulDivX(d, x, 100000)
(* what side s changes, if it has the ratio c (1e-5) of the smaller capacity to its own *)
Within(d, e, c, x, tol) == x >= Share(Share(e[1], c), d) - tol /\ x <= Share(Share(e[2], c), d) + tol
Judge1(r) ==
  LET h == r.h  a == r.a  b == r.b
      e == EffRange(h, a, b, Margin)
      ca == LnCap(a.f, Tm(a))  cb == LnCap(b.f, Tm(b))
      d == Abs(a.n[1] - b.n[1])
      ra == Exp(Min2(cb - ca, 0))  rb == Exp(Min2(ca - cb, 0))
      tol == 5 + d \div 300
  IN UNION {Bit(Within(d, e, ra, Abs(a.n[1] - a.out), tol), "supply-transfer"), Bit(Within(d, e, rb, Abs(b.n[1] - b.out), tol), "demand-transfer")}
JudgeX(st, r) ==
  CASE r.ev = "ntu" -> [st |-> st, bad |-> Judge1(r)]
    [] r.ev = "end" -> [st |-> st, bad |-> {}]
=============================================================================
