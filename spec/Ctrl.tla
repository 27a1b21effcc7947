-------------------------------- MODULE Ctrl --------------------------------
(* Controllers. Units: temperature 1/1024 K, time 1/64 s, control value 1e-6, *)
(* gains 1e-6 (1/K, 1/(K s), s/K), integral 1/4096 K s.                       *)
(*                                                                            *)
(* A controller is described by a record c (its configuration) and a state s: *)
(*   cv  control value after the last step                                    *)
(*   e, e1  error of the last step and the one before                         *)
(*   i   integral (continuous time)      der  filtered derivative             *)
(*   t, hist  elapsed time and recorded process values (dead time)            *)
EXTENDS Num

Inf == 2000000000
Rest == 25 * 1024          \* value assumed before anything was recorded

S0(c) == [cv |-> 0, e |-> 0, e1 |-> 0, i |-> 0, der |-> 0, t |-> 0,
          hist |-> << <<0, Rest>> >>]

(* ------------------------------------------------------------- tuning ---- *)
(* gains of a controller: given, or by the Ziegler-Nichols rules, multiplied  *)
Has(c, x) == \E k \in DOMAIN c.terms : c.terms[k] = x
Pct(x, p) == DivR(x * p, 100)
Gain0(c) ==
  IF c.tuning = "manual"
  THEN [kp |-> IF Has(c, "P") THEN c.kp ELSE 0, ki |-> IF Has(c, "I") THEN c.ki ELSE 0,
        kd |-> IF Has(c, "D") THEN c.kd ELSE 0]
  ELSE IF c.tuning = "tune" THEN [kp |-> c.kp, ki |-> 0, kd |-> 0]
  ELSE LET rule == IF Has(c, "I") /\ Has(c, "D") THEN c.rule
                   ELSE IF Has(c, "I") THEN "PI" ELSE IF Has(c, "D") THEN "PD" ELSE "P"
           \* <<kp/kcrit, Tn/Tcrit, Tv/Tcrit>> in 1/1000
           z == CASE rule = "P" -> <<500, 0, 0>> [] rule = "PI" -> <<450, 850, 0>>
                  [] rule = "PD" -> <<550, 0, 150>> [] rule = "classic" -> <<600, 500, 125>>
                  [] rule = "pessen-int" -> <<700, 400, 150>> [] rule = "some-os" -> <<330, 500, 330>>
                  [] rule = "no-os" -> <<200, 500, 330>>
           kp == DivR(c.kp * z[1], 1000)
       IN [kp |-> kp,
           ki |-> IF z[2] = 0 THEN 0 ELSE DivR(kp * 1000, z[2] * c.tcrit),
           kd |-> IF z[3] = 0 THEN 0 ELSE DivR(kp * z[3] * c.tcrit, 1000)]
Gain(c) == LET g == Gain0(c) IN
           [kp |-> Pct(g.kp, c.mult[1]), ki |-> Pct(g.ki, c.mult[2]), kd |-> Pct(g.kd, c.mult[3])]

(* ---------------------------------------------------------- dead time ---- *)
(* value of the recorded course at time q, linear between the records         *)
RECURSIVE At(_, _)
At(hist, q) ==
  IF Len(hist) = 1 THEN hist[1][2]
  ELSE LET n == Len(hist)
           b == hist[n]
           a == hist[n - 1]
       IN IF q >= b[1] THEN b[2]
          ELSE IF q >= a[1] THEN a[2] + DivR((b[2] - a[2]) * (q - a[1]), b[1] - a[1])
          ELSE At(SubSeq(hist, 1, n - 1), q)
Delayed(c, s, pv, dt) ==
  IF c.dead = 0 THEN pv
  ELSE At(Append(s.hist, <<s.t + dt, pv>>), s.t + dt - c.dead)
(* records that can still be asked for *)
Trim(hist, q) == IF Len(hist) > 2 /\ hist[2][1] <= q THEN Tail(hist) ELSE hist

(* -------------------------------------------------------- control laws --- *)
Sat(c, x) == Clip(x, c.sat[1], c.sat[2])
Inv(c) == IF c.inv = 1 THEN -1 ELSE 1
(* two-point: on below / off above the band, or reversed *)
BangBang(c, s, pv, sp) ==
  LET h == Abs(c.hyst)
      on == c.sat[2] * Inv(c)
      off == c.off * Inv(c)
  IN IF 2 * pv < 2 * sp - h THEN IF c.hyst < 0 THEN off ELSE on
     ELSE IF 2 * pv > 2 * sp + h THEN IF c.hyst < 0 THEN on ELSE off
     ELSE s.cv
TwoSensor(c, s, pv, sp, sens) ==
  LET act == IF c.actsign = "lower" THEN sens < c.act ELSE sens > c.act
      dea == IF c.deasign = "lower" THEN pv < sp ELSE pv > sp
  IN IF dea THEN c.off * Inv(c) ELSE IF act THEN c.sat[2] * Inv(c) ELSE s.cv

Deriv(c, s, de, dt) == IF c.filt = 0 THEN de
                       ELSE s.der + DivR((de - s.der) * dt, c.rc + dt)
(* anti-windup: a number (1e-3), none, or scaled such that |ki * i| <= awu     *)
WindCv(c, g) == CASE c.awumode = "inf" -> Inf
                  [] c.awumode = "num" -> Min2(c.awu, 2000000) * 1000
                  [] c.awumode = "auto" -> Min2(2000, DivR(c.awu * 1000, Max2(1, g.ki))) * 1000000
WindI(c, g) == CASE c.awumode = "inf" -> Inf
                 [] c.awumode = "num" -> DivR(c.awu * 4096, 1000)
                 [] c.awumode = "auto" -> DivR(c.awu * 4096000, Max2(1, g.ki))
KdTerm(g, der, dt) == MulDiv(der, g.kd, 16 * dt)
KiTerm(g, e, dt) == MulDiv(MulDiv(e, g.ki, 1024), dt, 64)
KpTerm(g, e) == MulDiv(e, g.kp, 1024)
(* discrete time: velocity form with an integral term, position form without  *)
PidDiscrete(c, s, e, dt) ==
  LET g == Gain(c)
      vel == g.ki # 0
      de == IF vel THEN e - 2 * s.e + s.e1 ELSE e - s.e
      der == Deriv(c, s, de, dt)
      lim == IF Has(c, "I") THEN WindCv(c, g) ELSE Inf
      x == IF vel
           THEN Clip(s.cv, -lim, lim) + Inv(c) * (KpTerm(g, e - s.e) + KiTerm(g, e, dt) + KdTerm(g, der, dt))
           ELSE Inv(c) * (KpTerm(g, e) + KdTerm(g, der, dt))
  IN [cv |-> Sat(c, x), der |-> der, i |-> 0]
(* continuous time: position form with limited integral                       *)
PidContinuous(c, s, e, dt) ==
  LET g == Gain(c)
      der == Deriv(c, s, e - s.e, dt)
      i0 == s.i + DivR(e * dt, 16)          \* 1/1024 * 1/64 -> 1/4096
      lim == IF Has(c, "I") THEN WindI(c, g) ELSE Inf
      i == Clip(i0, -lim, lim)
      x == Inv(c) * (KpTerm(g, e) + MulDiv(i, g.ki, 4096) + KdTerm(g, der, dt))
  IN [cv |-> Sat(c, x), der |-> der, i |-> i]
(* rate limit against the previous control value *)
Slope(c, prev, x, dt) ==
  IF c.slope[1] = 0 /\ c.slope[2] = 0 THEN x
  ELSE LET up == prev + DivR(c.slope[2] * dt, 64)
           dn == prev + DivR(c.slope[1] * dt, 64)
       IN IF x > up THEN up ELSE IF x < dn THEN dn ELSE x

(* one control step. m: [on: TRUE iff the master is not off]                  *)
Step(c, s, pv, sp, sens, dt, masteron) ==
  LET d == Delayed(c, s, pv, dt)
      e == sp - d
      raw == CASE c.kind = "bb" -> [cv |-> BangBang(c, s, pv, sp), der |-> 0, i |-> 0]
               [] c.kind = "ts" -> [cv |-> TwoSensor(c, s, pv, sp, sens), der |-> 0, i |-> 0]
               [] c.kind = "pid" -> IF c.disc = 1 THEN PidDiscrete(c, s, e, dt) ELSE PidContinuous(c, s, e, dt)
      forced == \/ c.dep = "concurrent" /\ ~masteron
                \/ c.dep = "sequential" /\ masteron
      y == IF forced THEN [raw EXCEPT !.cv = c.off, !.i = 0] ELSE raw
      cv == Slope(c, s.cv, y.cv, dt)
  IN [cv |-> cv, e |-> e, e1 |-> s.e, i |-> y.i, der |-> y.der, t |-> s.t + dt,
      hist |-> IF c.dead = 0 THEN s.hist
               ELSE Trim(Append(s.hist, <<s.t + dt, pv>>), s.t + dt - c.dead)]

(* --------------------------------------------------------- actuator ------ *)
(* value the actuator takes for control value cv                              *)
Act(c, cv) == Clip(IF c.mode = "direct" THEN cv ELSE MulDiv(cv, c.maxflow, 1000), c.llim, c.ulim)
=============================================================================
