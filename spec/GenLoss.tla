------------------------------- MODULE GenLoss -----------------------------
(* Stimuli: one part, its geometry, materials, insulation, surroundings and   *)
(* temperatures (1/8 K), at rest or with a flow through it.                   *)
EXTENDS Emit, Integers
VARIABLES lo, done
R(S) == RandomElement(S)
New(x) == LET k == R({"pipe", "ppump", "heated", "pvalve", "branched", "tes", "tes", "tes"})  n == R(IF k = "tes" THEN 3..7 ELSE IF k = "pvalve" THEN 4..6 ELSE 2..6)
              cold == R(1..3) = 1 IN   \* colder than the surroundings, little insulation
  [kind |-> k, n |-> n, dx |-> R(IF k = "tes" THEN {60, 120, 200} ELSE {40, 250, 1000}), type |-> R({"medium", "heavy"}),
   dn |-> R({"DN20", "DN25", "DN32", "DN40", "DN50"}), mat |-> R({"carbon", "carbon", "stainless"}), d |-> R({2500, 4000, 5500}), shell |-> R({30, 100}),
   sins |-> R(IF cold THEN {0, 10, 50} ELSE {0, 10, 50, 100, 300, 500}), lins |-> R({30, 100, 500, 2000}), amb |-> R(IF cold THEN {280, 320} ELSE {-80, 40, 160, 320}),
   T |-> [i \in 1..n |-> 8 * R(IF cold THEN 4..30 ELSE 4..95)], style |-> R({"any", "flat", "sorted", "sorted", "step"}), flow |-> R({0, 0, 0, 20, 150, 600}), cut |-> R(1..(n - 1))]
Init == lo = <<>> /\ done = FALSE
Next == \/ lo = <<>> /\ lo' = <<New(0)>> /\ UNCHANGED done
        \/ lo # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED lo
Spec == Init /\ [][Next]_<<lo, done>>
Out == done => Emit(lo[1])
=============================================================================
