------------------------------ MODULE GenCtrl ------------------------------
(* Stimuli for controllers: configurations of controllers and, per step, the  *)
(* number of rejected tries and the process values of six channels.           *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS Focus,   \* "twopoint", "pid", "dep", "dead"
          Len0, NCtrl
VARIABLES ctrls, script, done
R(S) == RandomElement(S)
K(x) == x * 1024
Q(x) == x * 16          \* 1/64 K

SPs == {K(38), K(40), K(45) + Q(7)}
Terms == {<<"P">>, <<"I">>, <<"P", "I">>, <<"P", "D">>, <<"P", "I", "D">>}
Kind(i) == CASE Focus = "twopoint" -> R({"bb", "ts"})
          [] Focus = "dep" -> R({"bb", "pid", "pid"})
          [] OTHER -> "pid"
NewPid(k, i) ==
  LET terms == R(Terms)
      tuning == IF Focus = "pid" /\ terms # <<"I">> THEN R({"manual", "manual", "zn", "tune"}) ELSE "manual"
  IN
  [kind |-> k, sat |-> R({<<0, 1000000>>, <<-2000000, 2000000>>, <<100000, 1500000>>, <<-500000, 300000>>}),
   off |-> R({0, 250000}), inv |-> R({0, 1}), hyst |-> R({0, K(2), -K(2), K(1) + 64, -(K(5) + 32)}),
   act |-> R({K(38), K(41), K(45)}), actsign |-> R({"lower", "greater"}),
   deasign |-> R({"lower", "greater"}), onc |-> R({1, 2}), pvc |-> 1,
   sp |-> R(SPs), ref |-> R({0, 0, 3}), diff |-> R({0, K(5), -(K(2) + Q(3))}),
   terms |-> terms, tuning |-> tuning, rule |-> R({"classic", "pessen-int", "some-os", "no-os"}),
   tcrit |-> R({2, 5}), kp |-> IF tuning = "manual" THEN R({0, 2000, 12000, 20000}) ELSE R({10000, 20000}),
   ki |-> R({500, 4000, 20000}), kd |-> R({0, 1000, 8000}), mult |-> R({<<100, 100, 100>>, <<50, 200, 25>>}),
   multset |-> R({0, 1}),
   disc |-> R({0, 1}), awumode |-> R({"num", "inf", "auto"}), awu |-> R({100, 400}),
   filt |-> R({0, 1}), rc |-> R({16, 64, 200}),
   slope |-> IF Focus = "pid" THEN R({<<0, 0>>, <<-100000, 300000>>, <<-1000000, 50000>>}) ELSE <<0, 0>>,
   dead |-> IF Focus = "dead" THEN R({4, 24, 40, 64, 100, 200, 333}) ELSE 0,
   dep |-> IF Focus = "dep" /\ i > 1 THEN R({"concurrent", "sequential"}) ELSE "none",
   master |-> IF i = 1 THEN 0 ELSE R({0} \cup 1..(i - 1)),
   mode |-> IF Focus = "dep" THEN "part" ELSE "direct",
   maxflow |-> 1000, llim |-> -5000000, ulim |-> 5000000]
Fix(c, i) == \* combinations that make sense
  LET c1 == IF c.kind # "pid" THEN [c EXCEPT !.dead = 0, !.slope = <<0, 0>>,
                 !.sat = IF @[2] < 1000000 THEN <<0, 1000000>> ELSE @,
                 !.ref = IF c.kind = "ts" THEN 0 ELSE @] ELSE c
      c2 == IF Focus = "dep" /\ i = 1 THEN [c1 EXCEPT !.kind = "bb", !.inv = 0, !.ref = 0, !.hyst = K(2)] ELSE c1
      c3 == IF Focus = "dead" THEN [c2 EXCEPT !.filt = 0, !.sat = <<-2000000, 2000000>>] ELSE c2
      c4 == IF c3.multset = 0 THEN [c3 EXCEPT !.mult = <<100, 100, 100>>] ELSE c3
      c5 == IF c4.tuning = "tune" THEN [c4 EXCEPT !.filt = 0] ELSE c4
  IN c5
Temps == {K(20), K(30), K(37) + Q(63), K(38), K(38) + Q(1), K(39) - Q(1), K(39), K(39) + Q(1), K(39) + Q(32), K(40), K(40) + Q(40),
          K(41) - Q(1), K(41), K(41) + Q(1), K(44), K(45), K(46) + Q(5), K(60)}
Smooth == {K(36) + Q(3 * x) : x \in 0..160}
Ch(n) == IF Focus = "twopoint" THEN R(Temps) ELSE R(IF R(1..2) = 1 THEN Temps ELSE Smooth)
Row(n) == [rej |-> R({0, 0, 1, 1, 2, 3}),
        v |-> <<Ch(1), Ch(2), Ch(3), R({0, K(20)})>>]
(* hold the process value sometimes *)
Hold(r, last) == IF R(1..4) = 1 THEN [r EXCEPT !.v = last.v] ELSE r

Init == ctrls = <<>> /\ script = <<>> /\ done = FALSE
Next == \/ /\ Len(ctrls) < NCtrl
           /\ ctrls' = Append(ctrls, Fix(NewPid(Kind(Len(ctrls)), Len(ctrls) + 1), Len(ctrls) + 1))
           /\ UNCHANGED <<script, done>>
        \/ /\ Len(ctrls) = NCtrl /\ Len(script) < Len0
           /\ script' = Append(script, IF script = <<>> THEN Row(Len(script)) ELSE Hold(Row(Len(script)), script[Len(script)]))
           /\ UNCHANGED <<ctrls, done>>
        \/ /\ Len(script) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<ctrls, script>>
Spec == Init /\ [][Next]_<<ctrls, script, done>>
(* time scale: all times of the scenario are divided by it *)
TScale(n) == IF Focus \in {"dead", "pid"} THEN R({1, 1, 64}) ELSE 1
Out == done => Emit([ctrls |-> ctrls, script |-> script, tscale |-> TScale(0)])
=============================================================================
