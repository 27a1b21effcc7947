-------------------------------- MODULE CHP --------------------------------
(* Operating state of a CHP plant. Times in ticks, modulations in M = 1.      *)
(* c: [lo, up, slope (per tick), minon, minoff, maxexc], st: the state after  *)
(* the last step: [t, m (0: off), su, sd, exc, starting, cooling]. One step:  *)
(* dt ticks with commanded modulation u, inlet hot / any cell in emergency.   *)
EXTENDS Num
Start(c, on, m) ==
  IF on THEN [t |-> 0, m |-> m, su |-> -c.minon, sd |-> -c.minon - 1, exc |-> 0, starting |-> FALSE, cooling |-> FALSE]
  ELSE [t |-> 0, m |-> 0, su |-> 0, sd |-> -c.minoff - 1, exc |-> 0, starting |-> TRUE, cooling |-> FALSE]
Step(c, st, u0, hot, emrg, dt) ==
  LET now == st.t + dt
      u == Min2(u0, c.up)
      want == u >= c.lo
      was == st.m # 0
      (* changes wanted by the control *)
      hold == was /\ ~want /\ c.minon > now - st.su
      refuse == ~was /\ want /\ (c.minoff > now - st.sd \/ hot \/ emrg)
      starts == ~was /\ want /\ ~refuse
      stops == was /\ ~want /\ ~hold
      on1 == IF hold THEN TRUE ELSE IF refuse THEN FALSE ELSE want
      m1 == IF ~on1 THEN 0 ELSE IF hold THEN c.lo ELSE IF was THEN Clip(u, st.m - c.slope * dt, st.m + c.slope * dt) ELSE u
      (* protection *)
      over == on1 /\ (hot \/ emrg)
      trip == over /\ (emrg \/ st.exc > c.maxexc)
  IN [t |-> now, m |-> IF trip THEN 0 ELSE m1,
      su |-> IF starts THEN now ELSE st.su,
      sd |-> IF stops \/ trip THEN now ELSE st.sd,
      exc |-> IF over /\ ~trip THEN st.exc + dt ELSE IF trip THEN st.exc ELSE 0,
      starting |-> starts \/ st.starting,
      cooling |-> stops \/ trip \/ st.cooling]
=============================================================================
