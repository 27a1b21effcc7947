------------------------------ MODULE GenStore -----------------------------
(* Worlds together with what to store of them and how.                        *)
EXTENDS GenWorld, Sequences
VARIABLES st
Sel(i) == LET k == R({"all", "none", "int", "list", "slice"}) IN
  [kind |-> k, a |-> R({0, 1, 2, 3, 4, 5, 6, 7}) - 3, b |-> R({1, 2, 3, 8, 9, 10}) - 1, step |-> R({1, 1, 2}), l |-> [j \in 1..R({1, 2, 3}) |-> R(0..5) - 2]]
St(i) == [sel |-> [k \in 1..16 |-> Sel(k)], some |-> R({0, 1, 1, 1}), comp |-> R({0, 1, 5, 9}), rs |-> R({0, 0, 1}),
          freq |-> R({250, 500, 700, 1000, 2000, 3000}), off |-> R({0, 1, 3, 59, 86390}), n |-> R({2, 3, 5, 7, 10, 1000}), infer |-> R({0, 0, 1})]
GInit == Init /\ st = <<>>
GNext == \/ st = <<>> /\ st' = <<St(0)>> /\ UNCHANGED <<circ, w, done>>
         \/ st # <<>> /\ Next /\ UNCHANGED st
GSpec == GInit /\ [][GNext]_<<circ, w, done, st>>
GOut == done => Emit([circuits |-> circ, world |-> w[1], st |-> st[1]])
=============================================================================
