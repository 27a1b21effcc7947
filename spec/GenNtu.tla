------------------------------- MODULE GenNtu ------------------------------
(* Stimuli for TraceNtu: a plate heat exchanger (dimensions in 1e-5 m, chan   *)
(* and thick in 1e-6 m), how its geometry is given, and a pool of situations: *)
(* temperatures of the four neighbours in 1/8 K, flows in 2^-16 kg/s.         *)
EXTENDS Emit, Integers
CONSTANTS Pool
VARIABLES hx, sit, done
R(S) == RandomElement(S)
Flow == {33, 64, 130, 350, 1024, 2222, 4096, 8192, 12000, 19200, 32768, 49152}
New(x) == LET p == R({1, 1, 1, 2, 3}) IN
  [passes |-> p, plates |-> IF p = 1 THEN 2 * R({2, 3, 5, 10, 20, 50}) ELSE 1 + 2 * p * R({1, 2, 3, 5}), max |-> R({"supply", "demand"}),
   L |-> R({20000, 35000, 50000, 100000}), W |-> R({8000, 11000, 20000}), chan |-> R({1500, 2000, 2500, 3000, 4000}), thick |-> R({300, 400, 500, 1000, 2000}),
   dport |-> R({1500, 2000, 3000}), corner |-> R({0, 1000, 2000}), mat |-> R({"carbon", "stainless"}), corr |-> R({0, 0, 500, 3000, 10000}),
   given |-> R({"width", "width", "depth", "mass", "massthin", "volume"}), area |-> IF R(1..4) = 1 THEN R({20000, 90000, 150000}) ELSE 0,
   cross |-> IF R(1..4) = 1 THEN R({15000, 40000}) ELSE 0, rev |-> <<R(BOOLEAN), R(BOOLEAN)>>]
Sit(x) == [t |-> <<R(160..720), R(160..720), R(160..720), R(160..720)>>, f |-> LET f == R(Flow) IN <<f, IF R(1..5) = 1 THEN f ELSE R(Flow)>>]
Init == hx = <<>> /\ sit = <<>> /\ done = FALSE
Next == \/ hx = <<>> /\ hx' = New(0) /\ UNCHANGED <<sit, done>>
        \/ hx # <<>> /\ Len(sit) < Pool /\ sit' = Append(sit, Sit(Len(sit))) /\ UNCHANGED <<hx, done>>
        \/ Len(sit) = Pool /\ ~done /\ done' = TRUE /\ UNCHANGED <<hx, sit>>
Spec == Init /\ [][Next]_<<hx, sit, done>>
Out == done => Emit([hx |-> hx, sit |-> sit])
=============================================================================
