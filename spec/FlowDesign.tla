----------------------------- MODULE FlowDesign -----------------------------
(* The relations of FlowNet determine the flow: for every network of the      *)
(* family below, every pump flow and opening, exactly one field of flows is   *)
(* consistent, and it changes with the command in the same step.              *)
EXTENDS FlowNet, TLC
CONSTANTS Q       \* pump flows -Q..Q in units of 4
VARIABLES net, cmd, op, f, moved

Pipe(i) == [ports |-> <<i, i + 1>>, kind |-> "pipe", cells |-> <<0, 3>>, rec |-> "one", sign |-> <<1, -1>>]
Three(i) == [ports |-> <<i, i + 1, i + 2>>, kind |-> "three", cells |-> <<0, 1, 3>>, rec |-> "ports", sign |-> <<1, 1, 1>>]
(* open chain of two pipes, the second one reversed or not *)
Chain(r) == [ports |-> 4, parts |-> <<Pipe(1), Pipe(3)>>, links |-> << <<2, IF r THEN 4 ELSE 3>> >>,
             pumps |-> << [port |-> 1, cmd |-> 1] >>, valves |-> <<>>]
(* pump pipe, valve (3,4,5 = A,B,AB) *)
Valve(r) == [ports |-> 5, parts |-> <<Pipe(1), Three(3)>>, links |-> << <<2, IF r THEN 3 ELSE 5>> >>,
             pumps |-> << [port |-> 1, cmd |-> 1] >>, valves |-> << [a |-> 3, b |-> 4, ab |-> 5, cmd |-> 1] >>]
(* two pumps joined by a connector *)
Join == [ports |-> 7, parts |-> <<Pipe(1), Pipe(3), Three(5)>>, links |-> << <<2, 5>>, <<4, 6>> >>,
         pumps |-> << [port |-> 1, cmd |-> 1], [port |-> 3, cmd |-> 2] >>, valves |-> <<>>]
Nets == {Chain(TRUE), Chain(FALSE), Valve(FALSE), Join}
Dom == {4 * x : x \in (-2 * Q)..(2 * Q)}
OK(n, g, c, o) == /\ Conserved(n, g, 0) /\ Linked(n, g, 0) /\ Pumped(n, g, c, 0) /\ Valved(n, g, o, 0)
(* fields of flows: chosen port by port to keep the search small *)
RECURSIVE Fields(_)
Fields(k) == IF k = 0 THEN {<<>>} ELSE {Append(g, x) : g \in Fields(k - 1), x \in Dom}
(* constructive solution *)
Sol(n, c, o) ==
  LET q == c[1] IN
  IF n = Chain(TRUE) THEN <<q, -q, -q, q>>
  ELSE IF n = Chain(FALSE) THEN <<q, -q, q, -q>>
  ELSE IF n = Join THEN <<q, -q, c[2], -c[2], q, c[2], -q - c[2]>>
  ELSE LET x == MulDiv(q, o[1], 1024) IN <<q, -q, -x, -(q - x), q>>
Init == /\ net \in Nets /\ cmd \in {<<4 * a, 4 * b>> : a \in (-Q)..Q, b \in (-Q)..Q}
        /\ op \in {<<0>>, <<256>>, <<512>>, <<1024>>}
        /\ f = Sol(net, cmd, op) /\ moved = 0
Next == /\ moved < 2 /\ moved' = moved + 1
        /\ \/ /\ cmd' \in {<<4 * a, cmd[2]>> : a \in (-Q)..Q} /\ UNCHANGED op
           \/ /\ op' \in {<<0>>, <<256>>, <<512>>, <<1024>>} /\ UNCHANGED cmd
        /\ f' = Sol(net, cmd', op') /\ UNCHANGED net
Spec == Init /\ [][Next]_<<net, cmd, op, f, moved>>
Consistent == OK(net, f, cmd, op)
(* any consistent field equals f: perturbing any subset of ports breaks it *)
Unique == net.ports <= 5 =>
            \A g \in Fields(net.ports - 2) :
              \A h \in {<<cmd[1], -cmd[1]>>} : OK(net, h \o g, cmd, op) => h \o g = f
=============================================================================
