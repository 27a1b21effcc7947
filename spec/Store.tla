------------------------------- MODULE Store -------------------------------
(* The result file: which parts and columns are stored, on which time axis,   *)
(* and what resampling makes of the rows. Times are integers relative to the  *)
(* start date, off is the time of day of the start date.                      *)
EXTENDS Num
(* python index semantics *)
Norm(i, n) == IF i < 0 THEN i + n ELSE i
Stored(sel) == sel.kind # "none"
SliceCols(sel, n) ==
  LET a == Clip(Norm(sel.a, n), 0, n)  b == Clip(Norm(sel.b, n), 0, n)
      m == IF b <= a THEN 0 ELSE (b - a + sel.step - 1) \div sel.step
  IN [i \in 1..m |-> a + (i - 1) * sel.step + 1]
All(n) == [i \in 1..n |-> i]
(* columns (1-based) of a table with n columns of a part with ncell cells *)
Cols(sel, n, ncell) ==
  IF n = 1 \/ n # ncell THEN All(n)
  ELSE CASE sel.kind = "all" -> All(n)
         [] sel.kind = "int" -> <<Norm(sel.a, n) + 1>>
         [] sel.kind = "list" -> [i \in 1..Len(sel.l) |-> Norm(sel.l[i], n) + 1]
         [] sel.kind = "slice" -> SliceCols(sel, n)
         [] OTHER -> <<>>
Pick(row, cols) == [i \in 1..Len(cols) |-> row[cols[i]]]
(* resampling: intervals of length f counted from midnight *)
BinOf(t, f, off) == (t + off) \div f
FirstBin(ts, f, off) == BinOf(ts[1], f, off)
NBins(ts, f, off) == BinOf(ts[Len(ts)], f, off) - FirstBin(ts, f, off) + 1
BinTime(k, ts, f, off) == (FirstBin(ts, f, off) + k - 1) * f - off
Members(k, ts, f, off) == {i \in 1..Len(ts) : BinOf(ts[i], f, off) = FirstBin(ts, f, off) + k - 1}
(* the members of an interval are consecutive rows; relative to the first one to stay within 32 bits *)
Mean(S, v) == LET a == CHOOSE x \in S : \A y \in S : x <= y
                  n == Cardinality(S)
              IN v[a] + DivR(SumSeq([i \in 1..n |-> v[a + i - 1] - v[a]]), n)
(* value of interval k: mean of its members, interpolated when it has none *)
BinVal(k, ts, v, f, off) ==
  LET M(j) == Members(j, ts, f, off) IN
  IF M(k) # {} THEN Mean(M(k), v)
  ELSE LET lo == CHOOSE j \in 1..(k - 1) : M(j) # {} /\ \A i \in (j + 1)..k : M(i) = {}
           hi == CHOOSE j \in (k + 1)..NBins(ts, f, off) : M(j) # {} /\ \A i \in k..(j - 1) : M(i) = {}
           a == Mean(M(lo), v)  b == Mean(M(hi), v)
       IN a + DivR((b - a) * (k - lo), hi - lo)
Resample(ts, v, f, off) == [k \in 1..NBins(ts, f, off) |-> BinVal(k, ts, v, f, off)]
ResampleIdx(ts, f, off) == [k \in 1..NBins(ts, f, off) |-> BinTime(k, ts, f, off)]
=============================================================================
