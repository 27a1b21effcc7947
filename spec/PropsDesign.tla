---------------------------- MODULE PropsDesign ----------------------------
(* The reference tables are physical: densities and viscosities fall, the     *)
(* conductivity rises, Prandtl falls, the expansion coefficient is the slope  *)
(* of the density; resistances combine like resistances; logarithm and        *)
(* exponential are inverse; a wrong coefficient shows.                        *)
EXTENDS Props
VARIABLES T, g
Gs == {900, 20000, 700000}
Init == T = -20000 /\ g \in [1..3 -> Gs]
Next == T < 110000 /\ T' = T + 1000 /\ UNCHANGED g
Spec == Init /\ [][Next]_<<T, g>>
Wet == T >= 0 /\ T < 109000
Falls == Wet => /\ (T >= 4000 => Rho(T + 1000) <= Rho(T)) /\ My(T + 1000) < My(T) /\ Lam(T + 1000) >= Lam(T) /\ Pr(T + 1000) < Pr(T) /\ Ny(T + 1000) < Ny(T)
AirFalls == /\ AirRho(T + 1000) < AirRho(T) /\ AirLam(T + 1000) > AirLam(T) /\ AirNy(T + 1000) > AirNy(T)
(* the expansion coefficient belongs to the densities: over 20 K around T *)
Expands == (T >= 20000 /\ T <= 90000 /\ T % 10000 = 0) =>
  LET d == MulDivX(Rho(T - 10000) - Rho(T + 10000), 50000, Rho(T)) IN Near(d, Beta(T), 25 + Beta(T) \div 20)
IdealGas == Near(MulDivX(AirRho(T), T + 273150, 1000000), MulDivX(AirRho(0), 273150, 1000000), 12)
AirPr == LET a == MulDivX(MulDivX(AirNy(T), AirRho(T), 10000), 10050, AirLam(T)) IN a \in 6800..7300   \* 1e-4
Circuits == /\ InSeries(g) <= MinSeq(g) + MinSeq(g) \div 300 /\ InSeries(<<g[1], g[2], g[3]>>) = InSeries(<<g[3], g[1], g[2]>>)
            /\ Near(InSeries(<<g[1], g[1]>>), g[1] \div 2, 1 + g[1] \div 500)
Inverse == T > 0 => LET x == T \div 10 IN Near(Exp(Ln(x)) \div 1000, x * 100, 1 + x \div 50)
Wrong == (Wet /\ T >= 20000 /\ T <= 90000) => /\ ~Agrees("rho", T, Rho(T) + 150) /\ ~Agrees("cp", T, Cp(T) + 420) /\ ~Agrees("lam", T, Lam(T) + 350)
            /\ ~Agrees("ny", T, Ny(T) + Ny(T) \div 20) /\ ~Agrees("pr", T, Pr(T) + Pr(T) \div 12) /\ ~Agrees("beta", T, Beta(T) + Beta(T) \div 20)
Absolute == Near(Pr(20000), 7007, 30) /\ Near(Ny(20000), 10034, 40)
Right == T <= 110000 => \A q \in DOMAIN Quant : Judged(q, T) => Agrees(q, T, Ref(q, T))
=============================================================================
