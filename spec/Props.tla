-------------------------------- MODULE Props ------------------------------
(* Which values of the property functions agree with the reference tables:   *)
(* <<lowest T, highest T (mK), relative tolerance in 1/1000>> per quantity.   *)
EXTENDS Fluids
ARho == <<13760, 12751, 11886, 11126, 10457, 9864, 9333, 8859>>    \* 1e-4 kg/m^3, dry air at 1 bar
WBeta == <<-68, 88, 207, 303, 385, 458, 523, 584, 641, 696, 750, 805>>   \* 1e-6 1/K
PSat == <<1228, 2339, 4247, 7385, 12352, 19946, 31201, 47414, 70182, 101418>>   \* Pa, 10..100 degC
Steam(T) == PSat[T \div 10000]
WSat(T) == MulDivX(62200, Steam(T), 100000 - Steam(T))      \* 1e-5 kg/kg at 1 bar
Beta(T) == Tab(WBeta, 0, 10000, T)
AirRho(T) == Tab(ARho, -20000, 20000, T)
Ny(T) == MulDivX(My(T), 100000, Rho(T))        \* 1e-10 m^2/s
Pr(T) == DivR(MulDivX(MulDivX(My(T), Cp(T), 10000), 10000, Lam(T)), 10)  \* 1e-3
Quant == [rho |-> <<0, 110000, 1>>, cp |-> <<0, 110000, 4>>, lam |-> <<5000, 110000, 26>>, ny |-> <<2000, 97000, 36>>, pr |-> <<9000, 93000, 65>>,
          beta |-> <<14000, 107000, 32>>, arho |-> <<-20000, 80000, 10>>, alam |-> <<-20000, 110000, 20>>, any |-> <<-20000, 110000, 14>>,
          psat |-> <<10000, 100000, 6>>, wsat |-> <<10000, 80000, 12>>]
Ref(q, T) == CASE q = "rho" -> Rho(T) [] q = "cp" -> Cp(T) [] q = "lam" -> Lam(T) [] q = "ny" -> Ny(T) [] q = "pr" -> Pr(T) [] q = "beta" -> Beta(T)
               [] q = "arho" -> AirRho(T) [] q = "alam" -> AirLam(T) [] q = "any" -> AirNy(T) [] q = "psat" -> Steam(T) [] q = "wsat" -> WSat(T)
Judged(q, T) == T >= Quant[q][1] /\ T <= Quant[q][2] /\ (q \in {"psat", "wsat"} => T % 10000 = 0)
Agrees(q, T, v) == Judged(q, T) => LET r == Ref(q, T) IN Abs(v - r) <= 1 + MulDivX(Abs(r), Quant[q][3], 1000)
(* resistances in series and parallel: conductances in mW/K *)
Inv(x) == DivR(1000000000, x)
InSeries(g) == Inv(SumSeq([i \in DOMAIN g |-> Inv(g[i])]))
(* logarithms (1e-5) of Reynolds and Rayleigh numbers: v in mm/s, L in 0.1 mm, ny in 1e-10 m^2/s; dT, T in mK *)
LnRe(v, L, ny) == Ln(v) + Ln(L) - Ln(ny) + 690776      \* 1e-3 1e-4 / 1e-10
LnRay(dT, T, L, ny, pr) == Ln(dT) - Ln(T + 273150) + Ln(981) - 460517 + 3 * Ln(L) - 2763102 + Ln(pr) - 690776 - 2 * Ln(ny) + 4605170
=============================================================================
