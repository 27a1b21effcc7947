------------------------------- MODULE GenHeat -----------------------------
(* Stimuli for heated parts: spreads, limits; per step powers, temperatures   *)
(* and rejected tries.                                                        *)
EXTENDS Emit, Integers
CONSTANTS Len0, NH
VARIABLES hs, script, done
R(S) == RandomElement(S)
New(i) == LET n == R(2..6)
              s == R({"all", "single", "range"})
              a == IF s = "range" THEN R(0..(n - 2)) ELSE R(0..(n - 1))
          IN [kind |-> R({"heated", "heated", "heated", "chp"}), n |-> n, spread |-> s, a |-> a, b |-> R((a + 1)..(IF a + 1 > n - 1 THEN a + 1 ELSE n - 1)),
              lo |-> R({0, 0, 100}), hi |-> R({3000, 20000}), dm |-> R({0, 16, 64})]
Temp(mode) == IF mode = "cool" THEN 1024 * R({20, 60, 100, 109}) ELSE IF mode = "edge" THEN 1024 * 110 + R({-1, 0, 1}) ELSE 1024 * R({60, 111, 112})
Row(x) == [u |-> [i \in 1..NH |-> R({0, 50, 100, 999, 2999, 3000, 3001, 7777, 20000, 25000})],
           t |-> [i \in 1..NH |-> LET m == R({"cool", "cool", "cool", "edge", "hot"}) IN [j \in 1..6 |-> IF R(1..3) = 1 THEN Temp(m) ELSE Temp("cool")]],
           rej |-> R({0, 0, 1, 2})]
Init == hs = <<>> /\ script = <<>> /\ done = FALSE
Next == \/ /\ Len(hs) < NH /\ hs' = Append(hs, New(Len(hs))) /\ UNCHANGED <<script, done>>
        \/ /\ Len(hs) = NH /\ Len(script) < Len0 /\ script' = Append(script, Row(Len(script))) /\ UNCHANGED <<hs, done>>
        \/ /\ Len(script) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<hs, script>>
Spec == Init /\ [][Next]_<<hs, script, done>>
Out == done => Emit([hs |-> hs, script |-> script])
=============================================================================
