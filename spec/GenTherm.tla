------------------------------ MODULE GenTherm ------------------------------
(* Thermal stimuli: a plant of GenNet with one set of commands, temperature   *)
(* profiles of its parts (1/8 K), boundary and ambient temperatures.          *)
EXTENDS GenNet
VARIABLES th
Lev == {64, 120, 160, 240, 320, 400, 480, 640, 760}
Therm(i) == [prof |-> [k \in 1..97 |-> R(Lev)], style |-> R({"random", "random", "step", "flat", "even"}), amb |-> R({40, 160, 240, 480}),
             bc |-> [k \in 1..9 |-> R(Lev)], lam |-> R({"ins", "normal", "bare"}), len |-> R({2, 5, 12}), n |-> R({2, 3, 4, 6}),
             tf |-> R({6, 15, 30}), rtol |-> R({2, 3, 5}), dn |-> R({"DN20", "DN25", "DN40"}), mir |-> [k \in 1..13 |-> R({0, 1})]]
InitT == Init /\ th = <<>>
NextT == \/ ~done /\ Next /\ ~done' /\ UNCHANGED th
         \/ Len(script) = Len0 /\ th = <<>> /\ th' = <<Therm(0)>> /\ UNCHANGED <<plan, script, done>>
         \/ th # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<plan, script, th>>
SpecT == InitT /\ [][NextT]_<<plan, script, done, th>>
OutT == done => Emit([plan |-> plan, script |-> script, th |-> th[1]])
=============================================================================
