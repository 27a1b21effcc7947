---------------------------- MODULE StoreDesign ----------------------------
(* For every selection, run and frequency: the selection only picks existing  *)
(* cells, the axis is evenly spaced and covers the run, every stored value    *)
(* lies within the range of the simulated ones, and sampling finer than the   *)
(* rows loses no row.                                                         *)
EXTENDS Store, TLC
CONSTANTS MaxRows, MaxT, Vs, Fs, Offs, MaxN
VARIABLES ts, v, f, off, sel, n
vars == <<ts, v, f, off, sel, n>>
B == 0..(2 * MaxN)   \* shifted indices
Sels(m) == {[kind |-> "all"], [kind |-> "none"]}
      \cup {[kind |-> "int", a |-> a] : a \in (-m)..(m - 1)}
      \cup {[kind |-> "list", l |-> <<a, b>>] : a, b \in (-m)..(m - 1)}
      \cup {[kind |-> "slice", a |-> a, b |-> b, step |-> s] : a \in (-m)..(m + 1), b \in (-m)..(m + 1), s \in 1..2}
Init == /\ ts = <<0>> /\ v \in {<<x>> : x \in Vs} /\ f \in Fs /\ off \in Offs
        /\ n \in 1..MaxN /\ sel \in Sels(n)
(* one more simulated row *)
Next == /\ Len(ts) < MaxRows
        /\ \E t \in (ts[Len(ts)] + 1)..MaxT : ts' = Append(ts, t)
        /\ \E x \in Vs : v' = Append(v, x)
        /\ UNCHANGED <<f, off, sel, n>>
Spec == Init /\ [][Next]_vars
C == Cols(sel, n, n)
Exists == Stored(sel) => \A i \in 1..Len(C) : C[i] \in 1..n
SliceDistinct == sel.kind = "slice" => \A i, j \in 1..Len(C) : i # j => C[i] # C[j]
Rs == Resample(ts, v, f, off)
Ix == ResampleIdx(ts, f, off)
Range == \A k \in 1..Len(Rs) : Rs[k] >= MinSeq(v) /\ Rs[k] <= MaxSeq(v)
Axis == /\ \A k \in 1..(Len(Ix) - 1) : Ix[k + 1] - Ix[k] = f
        /\ Ix[1] <= ts[1] /\ Ix[1] > ts[1] - f
        /\ Ix[Len(Ix)] <= ts[Len(ts)] /\ Ix[Len(Ix)] > ts[Len(ts)] - f
        /\ \A k \in 1..Len(Ix) : (Ix[k] + off) % f = 0
Finest == f = 1 => \A i \in 1..Len(ts) : \E k \in 1..Len(Ix) : Ix[k] = ts[i] /\ Rs[k] = v[i]
=============================================================================
