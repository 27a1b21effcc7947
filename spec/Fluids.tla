------------------------------- MODULE Fluids ------------------------------
(* Reference properties of water (0..110 degC, 10 K apart) and of dry air     *)
(* (-20..120 degC, 20 K apart) at atmospheric pressure; temperatures in mK.   *)
EXTENDS FixMath
WRho == <<99984, 99970, 99821, 99565, 99222, 98803, 98320, 97776, 97179, 96531, 95835, 95090>>       \* 1/100 kg/m^3
WCp  == <<42199, 41955, 41844, 41801, 41796, 41815, 41851, 41902, 41969, 42053, 42157, 42283>>       \* 1/10 J/(kg K)
WLam == <<5556, 5786, 5981, 6152, 6302, 6430, 6539, 6631, 6702, 6757, 6791, 6816>>                   \* 1e-4 W/(m K)
WMy  == <<17916, 13059, 10016, 7972, 6527, 5465, 4660, 4035, 3540, 3142, 2816, 2547>>                \* 1e-7 Pa s
ALam == <<2251, 2407, 2560, 2708, 2852, 2992, 3129, 3262>>                                           \* 1e-5 W/(m K)
ANy  == <<1174, 1346, 1526, 1715, 1912, 2116, 2328, 2547>>                                           \* 1e-8 m^2/s
Rho(T) == Tab(WRho, 0, 10000, T)
Cp(T) == Tab(WCp, 0, 10000, T)
Lam(T) == Tab(WLam, 0, 10000, T)
My(T) == Tab(WMy, 0, 10000, T)
AirLam(T) == Tab(ALam, -20000, 20000, T)
AirNy(T) == Tab(ANy, -20000, 20000, T)
RhoCp(T) == MulDivX(Rho(T), Cp(T), 1000000)   \* kJ/(m^3 K)
=============================================================================
