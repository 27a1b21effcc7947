-------------------------------- MODULE Loss -------------------------------
(* Heat capacity of the cells of cylindrical parts, heat lost to the ambient  *)
(* through fluid film, wall, insulation and free convection of air, and heat  *)
(* conducted between neighbouring cells, from geometry and materials alone.   *)
(* Part p: kind, di, do, sins (0.1 mm), dx (mm), lins (mW/mK), mat, amb (mK). *)
(* Temperatures mK, heat in 1e-4 W, capacities in 0.1 J/K, areas 1e-8 m^2,    *)
(* resistances of cylinders in 1e-5 K m/W.                                    *)
EXTENDS Fluids
Steel == [carbon |-> [rc |-> 8663, lam |-> 39800], stainless |-> [rc |-> 10784, lam |-> 17600]]   \* kJ/(m^3 K), mW/(m K)
(* outer and inner diameter of the steel pipes of EN 10255, 0.1 mm *)
PipeDim == [medium |-> [DN20 |-> <<216, 269>>, DN25 |-> <<272, 337>>, DN32 |-> <<359, 424>>, DN40 |-> <<418, 483>>, DN50 |-> <<530, 603>>],
            heavy |-> [DN20 |-> <<204, 269>>, DN25 |-> <<256, 337>>, DN32 |-> <<343, 424>>, DN40 |-> <<402, 483>>, DN50 |-> <<513, 603>>]]
Inside(p) == MulDivX(p.di * p.di, 31416, 40000)
Wall(p) == MulDivX(p.do * p.do - p.di * p.di, 31416, 40000)
Capacity(p, T) == MulDivX(MulDivX(Inside(p), p.dx, 1000), RhoCp(T), 10000) + MulDivX(MulDivX(Wall(p), p.dx, 1000), Steel[p.mat].rc, 10000)
Outer(p) == p.do + 2 * p.sins
(* free convection of air; L in 0.1 mm *)
LnRa(L, dT, amb, Tm) == 1114843 + Ln(Max2(dT, 1)) + 3 * Ln(L) - Ln(amb + 273150) - 2 * Ln(AirNy(Tm))
Sq(x) == MulDivX(x, x, 100000)
Root6(a, b, x) == Sq(a + MulDivX(38700, Exp(x \div 6), 100000))
Alpha(Nu, L, Tm) == MulDivX(Nu \div 100, AirLam(Tm), 10 * L)    \* mW/(m^2 K); Nu in 1e-5
Hor(L, dT, amb, Tm) == Alpha(Root6(75200, 0, LnRa(L, dT, amb, Tm) - 111804), L, Tm)
Ver(L, d, dT, amb, Tm) == Alpha(Root6(82500, 0, LnRa(L, dT, amb, Tm) - 105959) + MulDivX(43500, L, d), L, Tm)
Lid(top, L, dT, amb, Tm) ==
  LET x == LnRa(L, Abs(dT), amb, Tm) IN
  Alpha(IF top = (dT > 0) THEN LET y == x - 90867 IN IF y <= 1115625 THEN MulDivX(76600, Exp(y \div 5), 100000) ELSE MulDivX(15000, Exp(y \div 3), 100000)
        ELSE MulDivX(60000, Exp((x - 105959) \div 5), 100000), L, Tm)
Upright(p) == p.kind = "tes"
Film(p, dT, Tm) == IF Upright(p) THEN Ver(p.dx * 10, Outer(p), dT, p.amb, Tm) ELSE LET L == MulDivX(Outer(p), 31416, 20000) IN Hor(L, dT, p.amb, Tm)
RFilm(p, dT, Tm) == DivR(318310000, DivR(Outer(p) * Film(p, dT, Tm), 1000))
RLn(r2, r1, lam) == DivR(MulDivX(Ln(r2) - Ln(r1), 159155, 1000), lam)
RIn(T) == DivR(86971603, Lam(T))   \* laminar, fully developed
RSolid(p) == RLn(p.do, p.di, Steel[p.mat].lam) + RLn(Outer(p), p.do, p.lins)
(* surface temperature: what flows through wall and insulation leaves through the film *)
RECURSIVE Surface(_, _, _, _)
Surface(p, T, ri, n) ==
  LET Ts == IF n = 0 THEN (T + p.amb) \div 2 ELSE Surface(p, T, ri, n - 1)
      ro == RFilm(p, Abs(Ts - p.amb), (Ts + p.amb) \div 2)
  IN p.amb + MulDivX(T - p.amb, ro, ri + RSolid(p) + ro)
LossAt(p, T, ri) == LET Ts == Surface(p, T, ri, 5)
                        ro == RFilm(p, Abs(Ts - p.amb), (Ts + p.amb) \div 2)
                    IN MulDivX(p.amb - T, p.dx * 1000, ri + RSolid(p) + ro)
(* lid of an upright store: layers in series; surface as warm as the shell. Resistances in 1e-5 m^2 K/W *)
LidLoss(p, T, top, ri) == IF T = p.amb THEN 0 ELSE
  LET Ts == Surface(p, T, ri, 5)  d == Outer(p)
      L == (d * d) \div (4 * d)
      a == Lid(top, L, Ts - p.amb, p.amb, (Ts + p.amb) \div 2)
      ai == DivR(366 * Lam(T), p.di)     \* 3.66 lam / d in 0.01 W/(m^2 K)
      R == (IF ri = 0 THEN 0 ELSE DivR(10000000, ai)) + DivR(5000 * (p.do - p.di), Steel[p.mat].lam) + DivR(10000 * p.sins, p.lins) + DivR(100000000, a)
  IN MulDivX(p.amb - T, Inside(p) \div 100, R)
(* between cells: harmonic mean of the water, wall in parallel *)
Mean(a, b) == DivR(2 * a * b, a + b)
Cond(p, T, U) == LET g == MulDivX(Inside(p), Mean(Lam(T), Lam(U)), 1000000) + MulDivX(Wall(p), Steel[p.mat].lam, 100000)
                 IN MulDivX(U - T, g, 100 * p.dx)
(* a store whose lower cell is warmer mixes: conduction is not the limit *)
Stable(p, T) == Upright(p) => \A i \in 1..(Len(T) - 1) : T[i] >= T[i + 1]
Lids(p, T, i, ri) == IF ~Upright(p) THEN 0 ELSE (IF i = 1 THEN LidLoss(p, T[1], TRUE, ri) ELSE 0) + (IF i = Len(T) THEN LidLoss(p, T[i], FALSE, ri) ELSE 0)
Up(p, T, i) == IF i > 1 THEN Cond(p, T[i], T[i - 1]) ELSE 0
Down(p, T, i) == IF i < Len(T) THEN Cond(p, T[i], T[i + 1]) ELSE 0
=============================================================================
