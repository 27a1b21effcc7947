------------------------------ MODULE TraceBC ------------------------------
(* Boundary values of the real code judged with DynBC.                        *)
EXTENDS Mon
B == INSTANCE DynBC
StX == [t |-> <<>>, D |-> 1, exact |-> TRUE, pos |-> 0]
Tol == 6
JudgeStep(st, r) ==
  (* r.dt: the step just done; r.o[k]: value of target k after it              *)
  LET Ok(k) == \E v \in B!Admissible(st.t[k].pat, st.D, st.pos, r.dt, st.exact) : Near(r.o[k], v, Tol)
  IN [st |-> [st EXCEPT !.pos = @ + r.dt],
      bad |-> {"value-" \o st.t[k].kind : k \in {j \in DOMAIN st.t : ~Ok(j)}}]
JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> [t |-> r.tgt, D |-> r.D, exact |-> r.exact = 1, pos |-> 0], bad |-> {}]
    [] r.ev = "first" -> [st |-> st, bad |-> {"first-" \o st.t[k].kind : k \in {j \in DOMAIN st.t : ~Near(r.o[j], st.t[j].pat[1] * B!Q, Tol)}}]
    [] r.ev = "step" -> JudgeStep(st, r)
    [] r.ev = "end" -> [st |-> StX, bad |-> Bit(r.rows >= 8, "too-few-rows") \cup Bit(r.tick = 1, "step-sizes")]
=============================================================================
