------------------------------- MODULE GenAct -------------------------------
(* Stimuli for actuators: kinds, modes, limits; demanded values per step.     *)
EXTENDS Emit, Integers
CONSTANTS Len0, NAct
VARIABLES acts, script, done
R(S) == RandomElement(S)
New(i) ==
  LET k == R({"ppump", "ppump", "pump", "pvalve", "mv", "heat"})
      lo == IF k \in {"ppump", "pump"} THEN R({-512, -100, 0, 50}) ELSE R({0, 0, 100, 400})
      hi == IF k \in {"ppump", "pump"} THEN R({60, 256, 1024}) ELSE R({450, 900, 1024})
  IN [kind |-> k, mode |-> IF k = "heat" THEN "direct" ELSE IF k \in {"pvalve", "mv"} THEN "part" ELSE R({"direct", "part"}),
      lo |-> lo, hi |-> hi, maxi |-> R({256, 512, 1000}), start |-> R({lo, hi}), law |-> R({"P", "P", "bb"}),
      on |-> R({30, 200, 700, 1024, 1500}), off |-> R({-200, 0, 20, 100}), inv |-> R({0, 0, 1}), sub |-> R({0, 1})]
Init == acts = <<>> /\ script = <<>> /\ done = FALSE
Next == \/ /\ Len(acts) < NAct /\ acts' = Append(acts, New(Len(acts))) /\ UNCHANGED <<script, done>>
        \/ /\ Len(acts) = NAct /\ Len(script) < Len0
           /\ script' = Append(script, [i \in 1..NAct |-> R({-4000, -513, -512, -100, -1, 0, 1, 49, 50, 51, 99, 100, 101, 255, 256, 257, 399, 450, 777, 899, 900, 1023, 1024, 1025, 3000})])
           /\ UNCHANGED <<acts, done>>
        \/ /\ Len(script) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<acts, script>>
Spec == Init /\ [][Next]_<<acts, script, done>>
Out == done => Emit([acts |-> acts, script |-> script])
=============================================================================
