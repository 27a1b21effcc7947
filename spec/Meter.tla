------------------------------- MODULE Meter -------------------------------
(* What meters have to report. Temperatures in uK, mass flows in mg/s,        *)
(* volume flows in mm^3/s, heat in W and J, time steps in 10 us.              *)
EXTENDS Store
LOCAL INSTANCE SequencesExt
(* water between 0 and 110 degC: tables of density and heat capacity *)
RhoT == <<99984, 99970, 99821, 99565, 99222, 98804, 98320, 97777, 97180, 96531, 95837, 95090>>
CpT == <<42160, 41930, 41840, 41800, 41795, 41815, 41850, 41900, 41970, 42055, 42160, 42290>>
(* linear interpolation; T in uK *)
Lookup(tab, T) == LET mk == Clip(T \div 1000, 0, 109999)  i == mk \div 10000  f == mk % 10000
                  IN tab[i + 1] + DivR((tab[i + 2] - tab[i + 1]) * f, 10000)
Rho(T) == Lookup(RhoT, T)   \* 1/100 kg/m^3
Cp(T) == Lookup(CpT, T)     \* 1/10 J/(kg K)
(* column (1-based) of the flow table that belongs to a cell *)
FlowCol(kind, cell, ncell, ncol) ==
  IF ncol = 1 THEN 1
  ELSE IF kind = "hex" THEN (IF Norm(cell, ncell) < ncell \div 2 THEN 1 ELSE 2)
  ELSE Norm(cell, ncell) + 1
CellCol(cell, ncell) == Norm(cell, ncell) + 1
Volume(dm, T) == MulDivX(dm, 100000, Rho(T))
HeatFlow(dT, dm, Ta, Tb) == MulDivX(MulDivX(DivR(dT, 1000), dm, 1000), (Cp(Ta) + Cp(Tb)) \div 2, 100000) \div 100
(* running sums: rate times the time to the next row, the last step counting twice *)
Steps(ts) == [i \in 1..Len(ts) |-> IF i < Len(ts) THEN ts[i + 1] - ts[i] ELSE ts[i] - ts[i - 1]]
Inc(rate, dt) == MulDivX(rate, dt, 100000)
Acc(rate, dt, k) == FoldLeft(LAMBDA a, i : Append(a, (IF i = 1 THEN 0 ELSE a[i - 1]) + Inc(rate[i], dt[i])), <<>>, [i \in 1..k |-> i])
Positive(rate) == [i \in 1..Len(rate) |-> Max2(rate[i], 0)]
=============================================================================
