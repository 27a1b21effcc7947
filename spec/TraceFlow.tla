----------------------------- MODULE TraceFlow ------------------------------
(* Mass flows of real plants judged with the relations of FlowNet.            *)
(* Flow unit 2^-26 kg/s; commands 1/1024.                                     *)
EXTENDS Mon
F == INSTANCE FlowNet
StX == [n |-> <<>>]

JudgeStep(st, r) ==
  LET n == st.n
      tol == 8
      big == \E p \in DOMAIN r.f : Abs(r.f[p]) > 1500000000
      \* commands in force: demanded value clipped to the limits of the actuator
      cmd == IF r.n = 1 THEN n.start
             ELSE [k \in DOMAIN st.v |-> Clip(st.v[k], n.lo[k], n.hi[k])]
      q == [k \in DOMAIN cmd |-> IF n.isop[k] = 1 THEN 0 ELSE cmd[k] * 65536]
  IN [st |-> [st EXCEPT !.v = r.v],
      bad |-> IF big THEN {"unbounded"} ELSE
              Bit(F!Conserved(n, r.f, tol), "continuity-part") \cup Bit(F!Linked(n, r.f, tol), "continuity-link")
              \cup Bit(F!Pumped(n, r.f, q, tol), "pump") \cup Bit(F!Valved(n, r.f, cmd, 4 * tol), "valve")
              \cup Bit(\A k \in DOMAIN n.parts : F!Recorded(n.parts[k], r.f, r.rec[k], tol), "recorded")]
JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> [n |-> r.net, v |-> <<>>], bad |-> {}]
    [] r.ev = "refused" -> [st |-> StX, bad |->
          IF r.why = "unsolvable" THEN Bit(~F!Solvable(st.n), "refused-solvable")
          (* plain valves between the suction sides of several pumps *)
          ELSE IF r.why = "side" THEN Bit(Len(st.n.pumps) > 1 /\ \E k \in DOMAIN st.n.parts : st.n.parts[k].kind \in {"mix", "split"}, "refused-side")
          ELSE Bit(\E k \in DOMAIN st.n.valves : st.n.lo[st.n.valves[k].cmd] = 0, "refused-division")]
    [] r.ev = "step" -> JudgeStep(st, r)
    [] r.ev = "end" -> [st |-> StX, bad |-> Bit(r.rows >= 5, "too-few-rows")]
=============================================================================
