------------------------------ MODULE TraceAct ------------------------------
(* Actuators of the real code judged with Actuator.                           *)
EXTENDS Mon
A == INSTANCE Actuator
StX == [a |-> <<>>]
Tol == 40
(* demanded control value of actuator a for process deviation x: proportional *)
(* or two-point (hysteresis 0: on for x > 0, off for x < 0, else unchanged)    *)
Demand(a, x, held) == LET i == IF a.inv = 1 THEN -1 ELSE 1 IN
                      IF a.law = "P" THEN i * x ELSE IF x > 0 THEN i * a.on ELSE IF x < 0 THEN i * a.off ELSE held
Ok(a, d, o) == IF a.kind \in {"pvalve", "mv"} THEN LET w == A!Openings(a, d) IN Near(o[1], w[1], Tol) /\ Near(o[2], w[2], Tol)
               ELSE Near(o[1], A!Value(a, d), Tol)
Lim(a, o) == o[1] >= a.lo * 1024 - Tol /\ o[1] <= a.hi * 1024 + Tol
JudgeStep(st, r) ==
  LET as == st.a
      D(k) == IF r.n = 1 THEN 0 ELSE Demand(as[k], st.x[k], st.d[k])
  IN [st |-> [st EXCEPT !.x = r.x, !.d = [k \in DOMAIN as |-> D(k)]],
      bad |-> IF r.n = 1
              THEN {"start-" \o as[k].kind : k \in {j \in DOMAIN as : ~Near(r.o[j][1], as[j].start * 1024, Tol)}}
              ELSE {"demand-" \o as[k].kind : k \in {j \in DOMAIN as : ~Ok(as[j], D(j), r.o[j])}}
                   \cup {"limits-" \o as[k].kind : k \in {j \in DOMAIN as : ~Lim(as[j], r.o[j])}}
                   \cup {"complement" : k \in {j \in DOMAIN as : as[j].kind \in {"pvalve", "mv"} /\ ~Near(r.o[j][1] + r.o[j][2], 1048576, Tol)}}]
JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> [a |-> r.acts, x |-> <<>>, d |-> [k \in DOMAIN r.acts |-> 0]], bad |-> {}]
    [] r.ev = "step" -> JudgeStep(st, r)
    [] r.ev = "end" -> [st |-> StX, bad |-> Bit(r.rows >= 5, "too-few-rows")]
=============================================================================
