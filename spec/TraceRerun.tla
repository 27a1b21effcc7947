----------------------------- MODULE TraceRerun -----------------------------
(* Whole runs of the real code against the run of a fresh environment: after *)
(* a reset and in other environments every run must give identical rows.      *)
EXTENDS Mon
Re == INSTANCE Rerun WITH Comp <- {}, MaxRuns <- 0, age <- <<>>, ready <- TRUE, runs <- 0, out <- <<>>
StX == [ref |-> <<>>, h |-> <<>>, runs |-> 0]
JudgeX(st, r) ==
  CASE r.ev = "fresh" -> [st |-> [ref |-> r.rows, h |-> r.hist, runs |-> 0], bad |-> Bit(Len(r.rows) >= 2 /\ r.lens = 1, "no-rows")]
    [] r.ev = "run" -> [st |-> [st EXCEPT !.runs = @ + 1],
         bad |-> Bit(r.lens = 1, "array-lengths") \cup Bit(Len(r.rows) = Len(st.ref), "row-count") \cup
                 (IF r.rows = st.ref THEN {} ELSE {IF st.runs = 0 THEN "first-run" ELSE "rerun"})]
    [] r.ev = "other" -> [st |-> st, bad |-> Bit(r.rows = st.ref, "new-environment")]
    [] r.ev = "end" -> [st |-> StX, bad |-> Bit(st.runs = Re!Runs(st.h), "missing-run")]
=============================================================================
