------------------------------ MODULE CHPDesign ----------------------------
(* All demands, temperatures and step sizes in small bounds: the guarantees   *)
(* follow from CHP!Step. Independent history variables measure on/off times.  *)
EXTENDS CHP, TLC
CONSTANTS Us, Dts, Horizon
VARIABLES st, onfor, offfor, hotfor, bad
Cfgs == {[lo |-> 4, up |-> 8, slope |-> s, minon |-> a, minoff |-> b, maxexc |-> 5] : s \in {1, 2}, a \in {3, 5}, b \in {2, 6}}
VARIABLE c
Init == /\ c \in Cfgs /\ \E on \in BOOLEAN : st = Start(c, on, 6)
        /\ onfor = (IF st.m = 0 THEN 0 ELSE c.minon) /\ offfor = c.minoff + 1 /\ hotfor = 0 /\ bad = {}
Next == \E u \in Us, hot \in BOOLEAN, emrg \in BOOLEAN, dt \in Dts :
  /\ st.t + dt <= Horizon
  /\ st' = Step(c, st, u, hot, emrg, dt)
  /\ UNCHANGED c
  (* time since the end of the step in which the plant was switched            *)
  /\ onfor' = IF st'.m = 0 THEN 0 ELSE IF st.m = 0 THEN 0 ELSE onfor + dt
  /\ offfor' = IF st'.m # 0 THEN 0 ELSE IF st.m # 0 THEN 0 ELSE offfor + dt
  /\ hotfor' = IF st'.m # 0 /\ (hot \/ emrg) THEN hotfor + dt ELSE 0
  /\ bad' = Bit(~(st.m # 0 /\ st'.m = 0) \/ onfor + dt >= c.minon \/ emrg \/ (hot /\ hotfor > c.maxexc), "min-on")
            \cup Bit(~(st.m = 0 /\ st'.m # 0) \/ offfor + dt >= c.minoff, "min-off")
            \cup Bit(~(st.m = 0 /\ st'.m # 0) \/ ~(hot \/ emrg), "start-hot")
            \cup Bit(st'.m = 0 \/ (st'.m >= c.lo /\ st'.m <= c.up), "range")
            \cup Bit(st.m = 0 \/ st'.m = 0 \/ Abs(st'.m - st.m) <= c.slope * dt \/ (u < c.lo /\ st'.m = c.lo), "ramp")
            \cup Bit(~emrg \/ st'.m = 0, "emergency")
            \cup Bit(hotfor <= c.maxexc \/ ~hot \/ st'.m = 0, "overtemperature")
            \cup Bit(u < c.lo \/ st.m = 0 \/ hot \/ emrg \/ st'.m # 0, "stopped-unasked")
Spec == Init /\ [][Next]_<<st, onfor, offfor, hotfor, bad, c>>
Safe == bad = {}
=============================================================================
