------------------------------- MODULE Rerun -------------------------------
(* History of one simulation environment: build, run, reset. Every component *)
(* of the run state carries the number of steps it has seen since it was last *)
(* initialized; a run may only start with all of them fresh, and what a run   *)
(* yields is a function of where its components started.                      *)
EXTENDS Integers, Sequences
CONSTANTS Comp, MaxRuns
VARIABLES age, ready, runs, out
vars == <<age, ready, runs, out>>
Fresh == [c \in Comp |-> 0]
Init == age = Fresh /\ ready = TRUE /\ runs = 0 /\ out = <<>>
Run == /\ ready /\ runs < MaxRuns
       /\ out' = Append(out, age)                     \* the results of the run depend on these
       /\ age' = [c \in Comp |-> age[c] + 1] /\ ready' = FALSE /\ runs' = runs + 1
Reset == age' = Fresh /\ ready' = TRUE /\ UNCHANGED <<runs, out>>
Next == Run \/ Reset
Spec == Init /\ [][Next]_vars
Same == \A i \in DOMAIN out : out[i] = out[1]
StartsFresh == ready => age = Fresh
(* number of results of a history h of actions *)
RECURSIVE Runs(_)
Runs(h) == IF h = <<>> THEN 0 ELSE (IF h[1] = "run" THEN 1 ELSE 0) + Runs(Tail(h))
=============================================================================
