------------------------------ MODULE TraceSame -----------------------------
(* Runs that must agree: sampled rows of a run (time 1e-6 s, temperatures     *)
(* 1e-5 K, flows 1e-6 kg/s, powers 1e-2 W) against the same rows of the       *)
(* reference run, to within the rounding of reordered sums.                   *)
EXTENDS Mon
StX == [n |-> 0, rows |-> <<>>, ok |-> FALSE]
Tol == 3
Agree(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], Tol)
JudgeX(st, r) ==
  CASE r.ev = "ref" -> [st |-> [n |-> r.n, rows |-> r.rows, ok |-> TRUE], bad |-> Bit(r.n >= 2, "no-rows")]
    [] r.ev = "same" -> [st |-> st, bad |-> Bit(r.n = st.n, "row-count-" \o r.how) \cup
         (IF r.n = st.n THEN Bit(\A k \in DOMAIN r.rows : Agree(r.rows[k], st.rows[k]), "differs-" \o r.how) ELSE {})]
=============================================================================
