------------------------------ MODULE TraceHeat ----------------------------
(* Heated parts of the real code judged with Heat. ev "eval": one derivative  *)
(* evaluation (temperatures T, heat q into each cell in 1/16 W) of a step     *)
(* with commanded power w (the first step has the start value 0); ev "step": reported power of the step.             *)
EXTENDS Mon
H == INSTANCE Heat
StX == [hs |-> <<>>]
Lim == 110 * 1024
Tol(w) == 8 + w \div 500
JudgeEval(st, r) ==
  LET h == st.hs[r.k]
      w == IF h.kind = "heated" THEN H!Applied(IF r.n = 1 THEN 0 ELSE Clip(r.w, h.lo, h.hi), r.T, Lim) ELSE r.w
      Q(i) == H!CellHeat(h, w, i)
  IN {"cell-" \o h.kind : i \in {j \in 1..h.n : ~Near(r.q[j], Q(j), Tol(w))}}
     \cup Bit(Near(SumSeq(r.q), 16 * w, h.n * 8 + w \div 100), "total-" \o h.kind)
     \cup {"unheated-cell" : i \in {j \in 1..h.n : j \notin H!Heated(h) /\ Abs(r.q[j]) > 8}}
JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> [hs |-> r.hs], bad |-> {}]
    [] r.ev = "eval" -> [st |-> st, bad |-> JudgeEval(st, r)]
    [] r.ev = "step" -> LET h == st.hs[r.k] IN
         [st |-> st, bad |-> Bit(Near(r.rep, 16 * H!Applied(Clip(r.w, h.lo, h.hi), r.T, Lim), 2), "reported")]
    [] r.ev = "end" -> [st |-> StX, bad |-> Bit(r.rows >= 5, "too-few-rows")]
=============================================================================
