----------------------------- MODULE TraceChunk -----------------------------
(* Runs of the real code with chunked storage or growing memory against the  *)
(* run held in memory. Rows are interned: equal number = identical row.       *)
EXTENDS Mon
C == INSTANCE ChunkStore WITH mode <- "", n <- 0, k <- 0, s <- 0, live <- <<>>, stored <- <<>>, over <- FALSE, flushes <- 0, MaxN <- 0, MaxK <- 0
StX == [ref |-> <<>>, first |-> 0, hit |-> FALSE]
JudgeX(st, r) ==
  CASE r.ev = "ref" -> [st |-> [st EXCEPT !.ref = r.rows], bad |-> Bit(Len(r.rows) >= 2 /\ r.lens = 1, "no-rows")]
    (* a run that allocates more memory, going on longer: same beginning *)
    [] r.ev = "longer" -> [st |-> st, bad |-> Bit(Len(r.rows) >= Len(st.ref) /\ SubSeq(r.rows, 1, Len(st.ref)) = st.ref, "growing")]
    [] r.ev = "run" -> [st |-> st,
         bad |-> Bit(r.lens = 1, "array-lengths") \cup Bit(Len(r.rows) = Len(st.ref), "row-count") \cup Bit(r.rows = C!Assemble(st.ref, r.n), "rows")]
=============================================================================
