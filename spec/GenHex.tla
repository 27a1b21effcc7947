------------------------------- MODULE GenHex ------------------------------
(* Stimuli for heat exchangers: geometry, a pool of situations (temperatures  *)
(* of the four neighbours in 1/8 K, two flows in 2^-16 kg/s) and the order   *)
(* in which they occur, with repetitions.                                     *)
EXTENDS Emit, Integers
CONSTANTS Pool, Len0
VARIABLES hx, sit, seq, done
R(S) == RandomElement(S)
FlowV == {0, 64, 1024, 4096, 8192, 19200, -4096, -8192, -448}
Faint == {3, 5, 7, 9, 12, 15, 18, 22, 26, 30, 34, 38, 43, 48, 54, 60, 80, 110, 160, -25, -45, -70}
New(x) == LET p == R({1, 1, 1, 2, 3}) IN
  [passes |-> p, plates |-> IF p = 1 THEN 2 * R({3, 5, 20, 50}) ELSE 1 + 2 * p * R({2, 3}), max |-> R({"supply", "demand"}),
   len |-> R({2, 4, 8}), wid |-> R({1, 2}), chan |-> R({2, 3}), ra |-> R(BOOLEAN), rb |-> R(BOOLEAN),
   na |-> R(2..3), nb |-> R(2..3), dn |-> R({"DN25", "DN20"}), mode |-> R({"any", "any1", "faint", "balanced"})]
Sit(x) == LET same == R(1..6) = 1
              t == R(40..760)  u == R(40..760)  f == IF hx.mode = "faint" /\ R(BOOLEAN) THEN 16384 ELSE R(FlowV)
          IN [t |-> IF same THEN <<t, t, t, t>> ELSE <<t, R(40..760), u, R(40..760)>>,
              f |-> <<f, IF hx.mode = "balanced" THEN f ELSE IF hx.mode = "faint" THEN R(Faint) ELSE R(FlowV)>>]
Init == hx = <<>> /\ sit = <<>> /\ seq = <<>> /\ done = FALSE
Next == \/ hx = <<>> /\ hx' = New(0) /\ UNCHANGED <<sit, seq, done>>
        \/ hx # <<>> /\ Len(sit) < Pool /\ sit' = Append(sit, Sit(Len(sit))) /\ UNCHANGED <<hx, seq, done>>
        \/ Len(sit) = Pool /\ Len(seq) < Len0 /\ seq' = Append(seq, R(1..Pool)) /\ UNCHANGED <<hx, sit, done>>
        \/ Len(seq) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<hx, sit, seq>>
Spec == Init /\ [][Next]_<<hx, sit, seq, done>>
Out == done => Emit([hx |-> hx, sit |-> sit, seq |-> seq])
=============================================================================
