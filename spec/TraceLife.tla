------------------------------ MODULE TraceLife ----------------------------
(* Outcome of real programs judged with Life: every program that is complete   *)
(* runs, every other one is refused with an exception before the first step;   *)
(* runs in which values became invalid stop there and are reported as failed.  *)
EXTENDS Mon
L == INSTANCE Life
StX == [x |-> 0]
Pt(x) == <<x[1], x[2]>>
Op(o) == CASE o.op = "link" -> [op |-> "link", a |-> Pt(o.a), b |-> Pt(o.b)] [] OTHER -> o
Ops(r) == [i \in DOMAIN r.ops |-> Op(r.ops[i])]
Prog(r) == LET v == L!Verdict(Ops(r)) IN
  Bit(v = "run" => (r.out = "ran" \/ r.out = "unsolvable"), "refused-complete-model")
  \cup Bit(v = "refuse" => r.out \in {"refused", "unsolvable"}, "accepted-incomplete-model")
  \cup Bit(v = "refuse" => r.at <= L!FirstWrong(Ops(r)), "refused-too-late")
  \cup Bit(r.out \in {"refused", "unsolvable"} => r.steps = 0, "steps-before-refusal")
  \cup Bit((r.untouched /\ v = "run") => r.out = "ran", "plain-model-refused")
  \cup Bit(r.out = "ran" => r.over, "run-ended-early")
(* r.bad: step at which a value became invalid (0: never) *)
Nan(r) ==
  Bit(r.bad > 0 => r.rows = r.bad + 1, "run-goes-on-after-invalid-value")
  \cup Bit(r.bad > 0 => (~r.success /\ r.warned /\ r.state98), "failed-run-reported-successful")
  \cup Bit(r.bad = 0 => (r.success /\ ~r.warned /\ ~r.state98 /\ r.over), "good-run-reported-failed")
  \cup Bit(r.disk => (r.report /\ r.stored = r.rows), "report")
  \cup Bit((r.disk /\ r.report) => /\ r.told = r.seen
                                 /\ IF r.bad > 0 THEN r.nfail = r.rows /\ r.nok = 0 ELSE r.nok = r.rows /\ r.nfail = 0, "report-numbers")
JudgeX(st, r) ==
  CASE r.ev = "prog" -> [st |-> st, bad |-> Prog(r)]
    [] r.ev = "nan" -> [st |-> st, bad |-> Nan(r)]
=============================================================================
