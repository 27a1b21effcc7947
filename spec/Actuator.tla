------------------------------ MODULE Actuator ------------------------------
(* What an actuator does with a demanded control value (1/1024): scaled to    *)
(* the range of the part (maxi, 1/1024, part-specific pumps only), clipped to *)
(* the limits. Values of actuators are in 2^-20 of their unit.                *)
EXTENDS Num
Scaled(a, cv) == IF a.mode = "part" /\ a.kind = "ppump" THEN cv * a.maxi ELSE cv * 1024
Value(a, cv) == Clip(Scaled(a, cv), a.lo * 1024, a.hi * 1024)
(* openings of a valve: <<A, B>> *)
Openings(a, cv) == LET v == Value(a, cv) IN <<v, 1048576 - v>>
=============================================================================
