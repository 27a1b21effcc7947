-------------------------------- MODULE Ntu --------------------------------
(* Heat transferred by a plate heat exchanger in counterflow, from geometry,  *)
(* flows and properties of water (VDI Waermeatlas G1, C1). Logarithms in 1e-5. *)
(* Exchanger h: L, W, chan, thick, dport, corner (1e-5 m; chan and thick      *)
(* 1e-6 m), passes, plates, max, mat, corr (added to the Reynolds number).    *)
(* Sides: flow f (2^-20 kg/s, positive), mean temperature tm (mK).            *)
EXTENDS Props
LN(x) == Ln(x)
K10 == 230259                             \* ln 10
Lambda == [carbon |-> 39800, stainless |-> 17600]    \* mW/(m K)
(* area of a plate without port holes and corners, 1e-6 m^2 *)
Sheet(L, W, d, r) == MulDivX(L, W, 10000) - DivR(MulDivX(d * d, 31416, 1000000), 100) - DivR(MulDivX(r * r, 8584, 1000000), 100)
Plate(h) == IF h.area > 0 THEN h.area ELSE Sheet(h.L, h.W, h.dport, h.corner)
LnPlate(h) == LN(Plate(h)) - 6 * K10
LnCross(h) == IF h.cross > 0 THEN LN(h.cross) - 8 * K10 ELSE LN(h.chan) + LN(h.W) - 11 * K10   \* m^2
LnDh(h) == LN(2 * h.chan) - 6 * K10
LnL(h) == LN(h.L) - 5 * K10
Channels(h, side) == IF h.passes > 1 THEN (h.plates - 1) \div (2 * h.passes) ELSE IF h.max = side THEN h.plates \div 2 ELSE h.plates \div 2 - 1
LnAreas(h) == LnPlate(h) + LN(h.passes) + LN((h.plates - 2) \div h.passes)
LnFlow(f) == LN(f) - 20 * Ln2
(* Reynolds number of a channel in 1/100, with the correction for profiled plates *)
Re100(h, side, f, tm) == LET y == LnFlow(f) - LN(Channels(h, side)) + LnDh(h) - LnCross(h) - LN(My(tm)) + 7 * K10
                         IN Exp(y - 3 * K10) + 100 * h.corr
LnPrW(tm) == LN(Pr(tm)) - 3 * K10
Cube(a) == MulDivX(MulDivX(a, a, 100000), a, 100000)
Lam0(h, lre, tm) == LET lx == lre + LnPrW(tm) + LnDh(h) - LnL(h)
                        a == MulDivX(161500, Exp(lx \div 3), 100000) - 70000
                        b == Exp((3 * lx) \div 2 + (Ln2 - LN(1000 + 22 * Pr(tm)) + 3 * K10) \div 2)
                    IN (LN(4937100 + Cube(a) + b) - 5 * K10) \div 3
Turb0(h, lre, tm) == LET g == MulDivX(lre, 78173, 100000) - 150000
                         lf8 == -LN(8) - 2 * (LN(g) - 5 * K10)
                         pr23 == Exp((2 * LnPrW(tm)) \div 3)
                         den == 100000 + MulDivX(MulDivX(pr23 - 100000, 12700, 1000), Exp(lf8 \div 2), 100000)
                         ent == 100000 + Exp((2 * (LnDh(h) - LnL(h))) \div 3)
                     IN lf8 + lre + LnPrW(tm) - LN(den) + LN(ent)
Turbulent(re) == re > 230000
LnNu(h, re, turb, tm) == LET lre == LN(re) - 2 * K10 IN IF turb THEN Turb0(h, lre, tm) ELSE Lam0(h, lre, tm)
(* resistances, 1e-8 m^2 K/W *)
Film(h, nu, tm) == Exp(LnDh(h) - nu - LN(Lam(tm)) + 4 * K10 + 3 * K10)
HalfPlate(h) == DivR(50000 * h.thick, Lambda[h.mat])
LnUA(h, ra, rb) == LnAreas(h) - LN(ra + rb + 2 * HalfPlate(h)) + 8 * K10
LnCap(f, tm) == LnFlow(f) + LN(Cp(tm)) - K10
Part(a, b) == IF b > 900000 THEN MulDivX(100000, a \div 100, b \div 100) ELSE MulDivX(100000, a, b)   \* a / b in 1e-5
(* effectiveness of counterflow (1e-5) for transfer units and ratio (1e-5) *)
Eff(N, r) == LET y == MulDivX(N, 100000 - r, 100000) IN
  IF y < 3000 THEN LET z == N - MulDivX(N, y \div 2, 100000) IN Part(z, z + 100000 - y)
  ELSE LET e == Exp(-Min2(y, 1500000)) IN MulDivX(100000, 100000 - e, 100000 - MulDivX(r, e, 100000))
Units(lua, lc) == Exp(Min2(Max2(lua - lc, -900000), 640000))
Min3(S) == CHOOSE x \in S : \A y \in S : x <= y
Max3(S) == CHOOSE x \in S : \A y \in S : x >= y
Tm(s) == (s.n[1] + s.n[2]) \div 2
(* regimes a side may have: both near the limit of turbulence *)
Regimes(re) == IF re > 222000 /\ re < 238000 THEN BOOLEAN ELSE {Turbulent(re)}
Films(h, side, s) == LET re == Re100(h, side, s.f, Tm(s)) IN {Film(h, LnNu(h, re, t, Tm(s)), Tm(s)) : t \in Regimes(re)}
(* interval of the effectiveness when the conductance is known to margin (1e-5 of ln) *)
EffRange(h, a, b, margin) ==
  LET ca == LnCap(a.f, Tm(a))  cb == LnCap(b.f, Tm(b))  lc == Min2(ca, cb)
      r == Exp(lc - Max2(ca, cb))
      F == Films(h, "supply", a)  G == Films(h, "demand", b)
      U == {LnUA(h, x, y) : x \in F, y \in G}
  IN <<Eff(Units(Min3(U) - margin, lc), r), Eff(Units(Max3(U) + margin, lc), r)>>
=============================================================================
