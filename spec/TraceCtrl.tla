------------------------------ MODULE TraceCtrl -----------------------------
(* Controllers of the real code on scripted process values, judged step by    *)
(* step with the control laws of Ctrl.                                        *)
EXTENDS Mon
C == INSTANCE Ctrl
StX == [cf |-> <<>>]

Tol(c) == 4 + (IF c.dead > 0 THEN 60 + c.kd \div 8 ELSE 0)
            + (IF c.filt = 1 THEN 20 + c.kd \div 8 ELSE 0)
            + (IF c.tuning # "manual" \/ c.multset = 1 THEN 60 + (IF C!Has(c, "D") THEN 1400 ELSE 0) ELSE 0)
(* the setpoint of controller c given the channel values *)
SP(c, v) == IF c.ref > 0 THEN v[c.ref] + c.diff ELSE c.sp
MasterOn(cs, c, r) == IF c.dep = "none" THEN TRUE
                      ELSE IF c.master = 0 THEN r.v[4] # 0
                      ELSE r.f[c.master] # cs[c.master].off
Clause(c) == CASE c.dep # "none" -> "dependent-" \o c.kind
               [] c.kind = "bb" -> "two-point"
               [] c.kind = "ts" -> "two-sensor"
               [] c.dead > 0 -> "dead-time"
               [] c.disc = 1 -> "pid-discrete"
               [] OTHER -> "pid-continuous"

JudgeStep(st, r) ==
  LET cs == st.cf
      nx == [k \in DOMAIN cs |-> C!Step(cs[k], st.s[k], r.v[cs[k].pvc], SP(cs[k], r.v),
                                        r.v[cs[k].onc], r.dt, MasterOn(cs, cs[k], r))]
      okk == [k \in DOMAIN cs |-> Near(C!Act(cs[k], nx[k].cv), r.f[k], Tol(cs[k]))]
      sat == \A k \in DOMAIN cs : cs[k].kind = "pid" /\ cs[k].dep = "none" /\ cs[k].slope = <<0, 0>> =>
                r.f[k] >= cs[k].sat[1] - 1 /\ r.f[k] <= cs[k].sat[2] + 1
  IN [st |-> [st EXCEPT !.s = [k \in DOMAIN cs |-> [nx[k] EXCEPT !.cv = r.f[k]]]],
      bad |-> {Clause(cs[k]) : k \in {j \in DOMAIN cs : ~okk[j]}} \cup Bit(sat, "saturation")
              \cup Bit(r.exact = 1, "script")]

JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> [cf |-> r.ctrls, s |-> [k \in DOMAIN r.ctrls |-> C!S0(r.ctrls[k])]], bad |-> {}]
    [] r.ev = "step" -> JudgeStep(st, r)
    [] r.ev = "end" -> [st |-> StX, bad |-> Bit(r.rows >= 10, "too-few-rows")]
=============================================================================
