------------------------------ MODULE GenWorld ------------------------------
(* Plants with everything for the checks that compare whole runs: circuits,   *)
(* their controllers, step settings, and the variations to apply to the run.  *)
EXTENDS Emit, Integers
CONSTANTS MaxCirc, Kinds
VARIABLES circ, w, done
R(S) == RandomElement(S)
Circ(i) ==
  [kind |-> R(Kinds), n |-> R({2, 3, 4}), len |-> R({4, 6, 10}), t0 |-> R({160, 200, 320}), tin |-> R({120, 240, 480}),
   dyn |-> R({0, 1}), ser |-> [k \in 1..R({3, 5, 7}) |-> R({80, 160, 240, 320, 400, 480})], dm |-> R({2, 4, 8, 12}),
   obs |-> R(0..5), law |-> R({"bb", "pid", "pid", "pid", "ts"}), filt |-> R({0, 1}), slp |-> R({0, 0, 1}), soft |-> R({1, 8, 40}),  ref |-> R({0, 0, 1}), terms |-> R({"PID", "PID", "PI", "PD", "P"}), disc |-> R({TRUE, FALSE}), dead |-> R({0, 0, 4, 9}), inv |-> R({0, 0, 1}),
   mode |-> R({"part", "direct"}), sp |-> R({176, 240, 256, 330}), hyst |-> R({4, 16, 40}), cm |-> R({0, 1}), con |-> R({0, 1})]
World(i) ==
  [tf |-> R({8, 20, 33, 40, 60}), hmax |-> R({2, 4, 8, 16}), rtol |-> R({2, 3, 5}), fixed |-> R({0, 0, 0, 1}), sstep |-> R({2, 4, 8, 12}),
   dep |-> R({"none", "concurrent", "sequential"}), mpart |-> R({0, 0, 1}),
   chunks |-> [k \in 1..4 |-> R({1, 2, 3, 4, 5, 7, 10, 13, 25, 1000})], rank |-> [k \in 1..60 |-> R(0..99999)],
   flip |-> [k \in 1..17 |-> R({0, 1})], names |-> R({"a", "zz", "Q_", "0"}), variant |-> R(0..99999),
   disk |-> R({0, 0, 1}), hist |-> R({<<"run", "reset", "run">>, <<"reset", "run">>, <<"run", "reset", "reset", "run">>, <<"run", "reset", "run", "reset", "run">>})]
Init == circ = <<>> /\ w = <<>> /\ done = FALSE
Next == \/ /\ w = <<>> /\ Len(circ) < MaxCirc /\ circ' = Append(circ, Circ(Len(circ))) /\ UNCHANGED <<w, done>>
        \/ /\ w = <<>> /\ Len(circ) > 0 /\ w' = <<World(0)>> /\ UNCHANGED <<circ, done>>
        \/ /\ w # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<circ, w>>
Spec == Init /\ [][Next]_<<circ, w, done>>
Out == done => Emit([circuits |-> circ, world |-> w[1]])
=============================================================================
