----------------------------- MODULE HeatDesign ----------------------------
(* For every spread, power and temperature: the cell heats add up to the      *)
(* applied power, are equal in the heated cells and vanish elsewhere.         *)
EXTENDS Heat, TLC
CONSTANTS MaxN, Ws
VARIABLES h, w, T
Init == /\ \E n \in 1..MaxN : \/ h = [spread |-> "all", n |-> n, a |-> 0, b |-> 0]
                              \/ \E a \in 0..(n - 1) : h = [spread |-> "single", n |-> n, a |-> a, b |-> 0]
                              \/ \E a \in 0..(n - 1) : \E b \in (a + 1)..(n - 1) : h = [spread |-> "range", n |-> n, a |-> a, b |-> b]
        /\ w = 0 /\ T = [i \in 1..h.n |-> 0]
Next == w' \in Ws /\ T' \in [1..h.n -> {0, 9, 10, 11}] /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, w, T>>
E == Applied(w, T, 10)
Total == Abs(SumSeq([i \in 1..h.n |-> CellHeat(h, E, i)]) - 16 * E) <= h.n
Inside == \A i \in 1..h.n : (i \notin Heated(h) => CellHeat(h, E, i) = 0)
Safe == (\E i \in 1..h.n : T[i] >= 10) => \A i \in 1..h.n : CellHeat(h, E, i) = 0
=============================================================================
