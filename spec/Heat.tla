-------------------------------- MODULE Heat -------------------------------
(* Heat put into the cells of a heated part: cells 1..n, spread [kind, a, b]  *)
(* (0-based indices as in the code, b excluded), power w in W.                *)
EXTENDS Num
Heated(h) == CASE h.spread = "all" -> 1..h.n
               [] h.spread = "single" -> {h.a + 1}
               [] h.spread = "range" -> (h.a + 1)..h.b
Emergency(T, lim) == \E i \in DOMAIN T : T[i] >= lim
Applied(w, T, lim) == IF Emergency(T, lim) THEN 0 ELSE w
(* heat into cell i in 1/16 W *)
CellHeat(h, w, i) == IF i \in Heated(h) THEN DivR(16 * w, Cardinality(Heated(h))) ELSE 0
=============================================================================
