----------------------------- MODULE TraceStore ----------------------------
(* Result files of the real code judged with Store. Times in 10 us; without   *)
(* resampling (f = 0) values are interned, else fixed point.                  *)
EXTENDS Mon
S == INSTANCE Store
StX == [t |-> <<>>, f |-> 0, off |-> 0]
(* time stamps may be off by one rounding unit *)
SameAxis(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 1)
Table(st, r) ==
  LET nc == IF r.nc = 0 THEN -1 ELSE r.nc
      cols == S!Cols(r.sel, r.n, nc) IN
  IF ~S!Stored(r.sel) THEN Bit(~r.there, "not-selected-but-stored")
  ELSE IF ~r.there THEN {"selected-but-missing"}
  ELSE IF st.f = 0
  THEN Bit(SameAxis(r.idx, st.t), "time-axis") \cup Bit(Len(r.mem) = Len(r.file), "row-count")
       \cup Bit(Len(r.mem) = Len(r.file) => \A i \in 1..Len(r.mem) : r.file[i] = S!Pick(r.mem[i], cols), "cells-" \o r.key)
       \cup Bit(r.load = 15, "loading")
  ELSE LET ix == S!ResampleIdx(st.t, st.f, st.off)
           e(c) == S!Resample(st.t, [i \in 1..Len(r.mem) |-> r.mem[i][cols[c]]], st.f, st.off)
       IN Bit(SameAxis(r.idx, ix), "resampled-axis") \cup Bit(Len(r.file) = Len(ix), "row-count")
          \cup Bit(Len(r.file) = Len(ix) => \A i \in 1..Len(ix) : Len(r.file[i]) = Len(cols), "cells-" \o r.key)
          \cup Bit((Len(r.file) = Len(ix) /\ Len(r.file[1]) = Len(cols)) => \A c \in 1..Len(cols) : LET x == e(c) IN \A i \in 1..Len(ix) : Near(r.file[i][c], x[i], 3), "resampled-" \o r.key)
          \cup Bit(r.load = 15, "loading")
JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> [t |-> r.t, f |-> r.f, off |-> r.off], bad |-> Bit(Len(r.t) >= 2 /\ \A i \in 1..(Len(r.t) - 1) : r.t[i] < r.t[i + 1], "time")]
    [] r.ev = "failed" -> [st |-> StX, bad |-> {}]
    [] r.ev = "table" -> [st |-> st, bad |-> Table(st, r)]
    [] r.ev = "end" -> [st |-> st, bad |-> Bit(r.vecs, "sim-vecs") \cup Bit(SameAxis(r.idx, st.t), "sim-vecs-axis") \cup Bit(r.extra = <<>>, "extra-tables") \cup Bit(r.tmp = 0, "temporary-file-left")]
    [] r.ev = "refuse" -> [st |-> StX, bad |-> Bit(r.accepted = <<>>, "invalid-selection-accepted")]
=============================================================================
