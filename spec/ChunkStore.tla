----------------------------- MODULE ChunkStore -----------------------------
(* Result rows of a run: the live arrays hold n + 1 rows; when row n has been *)
(* written and the run goes on, all but the last row move to the store (disk  *)
(* mode) and the last row becomes row 0, or the arrays grow (memory mode).    *)
(* At the end the remaining live rows are appended to the store.              *)
EXTENDS Integers, Sequences
VARIABLES mode, n, k, s, live, stored, over, flushes
vars == <<mode, n, k, s, live, stored, over, flushes>>
CONSTANTS MaxN, MaxK
(* what the user gets for rows r (a sequence) with chunk size c *)
(* row i of the result is row o of chunk q, chunk q starts with row q * c     *)
Assemble(r, c) == [i \in 1..Len(r) |-> LET q == (i - 1) \div c  o == (i - 1) % c IN r[q * c + o + 1]]
Init == /\ mode \in {"disk", "memory"} /\ n \in 1..MaxN /\ k = 0 /\ s = 1
        /\ live = <<0>> /\ stored = <<>> /\ over = FALSE /\ flushes = 0
(* one accepted step; last: the timeframe has been reached by it *)
StepTo(last) ==
  LET l == Append(live, k + 1) IN
  /\ k < MaxK /\ ~over /\ k' = k + 1
  /\ IF last THEN over' = TRUE /\ live' = l /\ stored' = stored /\ s' = s + 1 /\ n' = n /\ flushes' = flushes
     ELSE IF s < n THEN over' = FALSE /\ live' = l /\ stored' = stored /\ s' = s + 1 /\ n' = n /\ flushes' = flushes
     ELSE IF mode = "disk"
     THEN over' = FALSE /\ live' = <<l[s + 1]>> /\ stored' = stored \o SubSeq(l, 1, s) /\ s' = 1 /\ n' = n /\ flushes' = flushes + 1
     ELSE over' = FALSE /\ live' = l /\ stored' = stored /\ s' = s + 1 /\ n' = n + n + 1 /\ flushes' = flushes
  /\ UNCHANGED mode
Next == \E last \in BOOLEAN : StepTo(last)
Spec == Init /\ [][Next]_vars
Result == stored \o live
Whole == Result = [i \in 1..(k + 1) |-> i - 1]
Bounded == mode = "disk" => Len(live) <= n + 1
Indexed == Len(live) = s
Agrees == (mode = "disk") => Assemble([i \in 1..(k + 1) |-> i - 1], n) = Result
=============================================================================
