------------------------------- MODULE GenCHP ------------------------------
(* Stimuli for CHP plants: configuration; per step a demand, temperatures and *)
(* rejected tries. Demands and temperatures persist for a while.              *)
EXTENDS Emit, Integers
CONSTANTS Len0
VARIABLES cfg, script, done
R(S) == RandomElement(S)
Cfg(x) == LET lo == R({300, 512, 614}) IN
  [lo |-> lo, up |-> R({lo + 150, 1024, 1024}), slope |-> R({4, 20, 100, 400}), minon |-> R({20, 60, 200}), minoff |-> R({20, 60, 200}),
   on |-> R({0, 1}), start |-> R({lo, 700}), ts |-> R({-3, -6, -8}), pel |-> R({5000, 20000}), p2h |-> R({516796, 600000}), eta |-> R({327330, 300000}),
   long |-> R({0, 0, 1}), prof |-> R({0, 0, 1})]
Init == cfg = [lo |-> 0] /\ script = <<>> /\ done = FALSE
Last == script[Len(script)]
Demand(x) == R({0, 0, 0, cfg.lo - 1, cfg.lo, cfg.lo + 1, cfg.lo + 60, 650, 800, cfg.up, cfg.up + 1, 1024, 1500})
Cool(x) == R({40, 74, 75})
Row(x) == LET first == script = <<>>
              keepu == ~first /\ R(1..12) <= (IF cfg.prof = 1 THEN 10 ELSE 8)
              mode == IF cfg.prof = 1 THEN "cool" ELSE IF first \/ R(1..10) <= 3 THEN R({"cool", "cool", "cool", "hot", "hot", "emrg", "tip"}) ELSE Last.mode
              hots == IF mode = "hot" THEN R({76, 80, 100, 110}) ELSE IF mode = "tip" THEN R({75, 76}) ELSE IF mode = "emrg" THEN R({75, 111}) ELSE Cool(x)
          IN [u |-> IF keepu THEN Last.u ELSE Demand(x), mode |-> mode,
              v |-> <<hots, IF mode = "emrg" /\ hots = 75 THEN 111 ELSE R({60, 90, 110}), IF cfg.prof = 0 /\ R(1..25) = 1 THEN 112 ELSE 50>>,
              rej |-> IF cfg.long = 1 THEN R({0, 0, 0, 1}) ELSE R({0, 0, 1, 2, 3})]
Next == \/ /\ cfg.lo = 0 /\ cfg' = Cfg(0) /\ UNCHANGED <<script, done>>
        \/ /\ cfg.lo # 0 /\ Len(script) < Len0 /\ script' = Append(script, Row(Len(script))) /\ UNCHANGED <<cfg, done>>
        \/ /\ Len(script) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, script>>
Spec == Init /\ [][Next]_<<cfg, script, done>>
Out == done => Emit([cfg |-> cfg, script |-> script])
=============================================================================
