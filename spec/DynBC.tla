------------------------------- MODULE DynBC -------------------------------
(* Boundary values given as time series. Time in ticks, D is the sampling     *)
(* interval in ticks, Smp(p, i) sample i of the periodic series p.    A step of  *)
(* dt ticks from last reaches pos = last + dt. Values carry a factor Q.       *)
EXTENDS Num
Q == 1024
Smp(p, i) == p[(i % Len(p)) + 1]
Interp(p, D, k, r) == ((Smp(p, k) * (D - r) + Smp(p, k + 1) * r) * Q) \div D
RECURSIVE SumF(_, _, _)
SumF(p, a, b) == IF a > b THEN 0 ELSE Smp(p, a) + SumF(p, a + 1, b)
Mean(p, a, b) == DivR(SumF(p, a, b) * Q, b - a + 1)
Val(p, D, first, dt, k, r) ==
  LET lm == Interp(p, D, k, r) IN
  IF dt <= D THEN lm ELSE DivR(Mean(p, first, k) * (dt - r) + lm * r, dt)
(* first sample counted as passed: the one nearest to the last time           *)
Firsts(D, last, exact) ==
  LET h == last \div D  q == last % D IN
  IF 2 * q < D THEN {h} ELSE IF 2 * q > D THEN {h + 1}
  ELSE IF exact THEN {IF h % 2 = 0 THEN h ELSE h + 1} ELSE {h, h + 1}
(* a time that falls on a sample may be counted to either side if times are   *)
(* not exactly representable                                                   *)
Ends(D, pos, exact) ==
  LET k == pos \div D  r == pos % D IN
  {<<k, r>>} \cup (IF ~exact /\ r = 0 /\ k > 0 THEN {<<k - 1, D>>} ELSE {})
Admissible(p, D, last, dt, exact) ==
  {Val(p, D, f, dt, e[1], e[2]) : f \in Firsts(D, last, exact), e \in Ends(D, last + dt, exact)}
=============================================================================
