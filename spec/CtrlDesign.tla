----------------------------- MODULE CtrlDesign -----------------------------
(* Design check of the controllers: a master, a dependent controller and      *)
(* their actuators under every course of process values and step sizes.       *)
EXTENDS Ctrl
CONSTANTS Kinds, Deps, Deads, Slopes, Steps, DTs
VARIABLES cfg, st, a, n, mon, dt

Base == [kind |-> "pid", sat |-> <<0, 1000000>>, off |-> 0, inv |-> 0, hyst |-> 2 * 1024,
         act |-> 38 * 1024, actsign |-> "lower", deasign |-> "greater",
         terms |-> <<"P", "I", "D">>, tuning |-> "manual", kp |-> 20000, ki |-> 10000, kd |-> 500,
         mult |-> <<100, 100, 100>>, disc |-> 1, awu |-> 10000, awumode |-> "num",
         filt |-> 0, rc |-> 32, slope |-> <<0, 0>>, dead |-> 0, dep |-> "none",
         mode |-> "part", maxflow |-> 500, llim |-> 50000, ulim |-> 400000]
PV == {20 * 1024, 39 * 1024, 40 * 1024, 41 * 1024, 60 * 1024}
SP == 40 * 1024
Init == /\ cfg \in [k : Kinds, d : Deps, dead : Deads, sl : Slopes, disc : {0, 1}, inv : {0, 1}]
        /\ st = S0(Base) /\ a = 0 /\ n = 0 /\ mon = FALSE /\ dt = 1
C == [Base EXCEPT !.kind = cfg.k, !.dep = cfg.d, !.dead = cfg.dead, !.slope = <<-cfg.sl, cfg.sl>>,
                  !.disc = cfg.disc, !.inv = cfg.inv,
                  !.sat = IF cfg.inv = 1 THEN <<-1000000, 1000000>> ELSE @]
Next == /\ n < Steps /\ n' = n + 1
        /\ \E pv \in PV, h \in DTs, m \in (IF cfg.d = "none" THEN {TRUE} ELSE BOOLEAN) :
             /\ st' = Step(C, st, pv, SP, pv, h, m)
             /\ mon' = m /\ dt' = h
             /\ a' = Act(C, st'.cv)
        /\ UNCHANGED cfg
Spec == Init /\ [][Next]_<<cfg, st, a, n, mon, dt>>

Off == {0}
InSaturation == C.sat[1] <= st.cv /\ st.cv <= C.sat[2]
ActuatorInLimits == n > 0 => C.llim <= a /\ a <= C.ulim
TwoPoint == C.kind \in {"bb", "ts"} /\ cfg.sl = 0 => st.cv \in {0, Inv(C) * 1000000}
Obeys == (n > 0 /\ cfg.sl = 0) =>
           /\ (C.dep = "concurrent" /\ ~mon) => st.cv = C.off
           /\ (C.dep = "sequential" /\ mon) => st.cv = C.off
SlopeBound == [][cfg.sl > 0 => Abs(st'.cv - st.cv) <= DivR(cfg.sl * dt', 64)]_<<cfg, st, a, n, mon, dt>>
IntegralBound == C.disc = 0 => Abs(st.i) <= 40960
=============================================================================
