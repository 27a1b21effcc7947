------------------------------- MODULE GenNet -------------------------------
(* Stimuli for the flow network: a plant as a line of segments around a main  *)
(* pump, and the course of pump flows and valve openings (1/1024).            *)
EXTENDS Emit, Integers, FiniteSets
CONSTANTS Len0, MaxSeg
VARIABLES plan, script, done
R(S) == RandomElement(S)

Simple(i) == [k |-> R({"pipe", "pipe", "tes", "tesloop", "vsplit", "vsplit", "join", "pipe"}), rev |-> R({0, 1}),
              type |-> "none", na |-> R({1, 2}), nb |-> R({1, 2}), swap |-> R({0, 1}),
              nest |-> R({0, 0, 1}), merge |-> R({0, 1}), jt |-> R({"conn", "branched", "tes", "leave"}),
              pos |-> R({1, 2, 3}), inb |-> 0]
(* plain three-way valves may only divide on the pressure side and mix on the *)
(* suction side of the pump; valve pipes can be anywhere                       *)
Seg(i, side, closed) ==
  LET s == Simple(i)
      s1 == IF closed /\ s.k = "join" THEN [s EXCEPT !.k = "pipe"] ELSE s
      t == R({"pvalve", "pvalve", "mv"})
  IN IF s1.k # "vsplit" THEN s1
     ELSE IF t = "mv" /\ side = "suction" THEN [s1 EXCEPT !.type = "mix", !.merge = 1, !.nest = 0]
     ELSE IF t = "mv" /\ side = "pressure" THEN [s1 EXCEPT !.type = "split", !.merge = 0, !.nest = 0]
     ELSE [s1 EXCEPT !.type = "pvalve"]
Pump(i, plain) == [k |-> "pump", type |-> R({"ppump", "ppump", "pump"}), rev |-> IF plain THEN 0 ELSE R({0, 1}),
                   inb |-> IF plain THEN 0 ELSE R({0, 0, 0, 1})]

New(x) == [closed |-> R({0, 1}), pre |-> <<>>, post |-> <<>>, np |-> R(1..MaxSeg), nq |-> R(1..MaxSeg),
           pump |-> [k |-> "none"], olim |-> R({<<0, 1024>>, <<100, 900>>, <<300, 700>>})]
Init == plan = [np |-> 0, pre |-> <<>>, post |-> <<>>, nq |-> -1, pump |-> [k |-> "none"]] /\ script = <<>> /\ done = FALSE
Next ==
  \/ /\ plan.np = 0 /\ plan' = New(0) /\ UNCHANGED <<script, done>>
  \/ /\ Len(plan.pre) < plan.np
     /\ plan' = [plan EXCEPT !.pre = Append(@, Seg(Len(@), "suction", plan.closed = 1))]
     /\ UNCHANGED <<script, done>>
  \/ /\ Len(plan.pre) = plan.np /\ Len(plan.post) < plan.nq
     /\ plan' = [plan EXCEPT !.post = Append(@, Seg(Len(@), "pressure", plan.closed = 1))]
     /\ UNCHANGED <<script, done>>
  \/ /\ Len(plan.post) = plan.nq /\ plan.pump.k = "none"
     /\ plan' = [plan EXCEPT !.pump = Pump(1, \E s \in {plan.pre[i] : i \in DOMAIN plan.pre} \cup {plan.post[i] : i \in DOMAIN plan.post} : s.type \in {"mix", "split"})]
     /\ UNCHANGED <<script, done>>
  \/ /\ plan.pump.k # "none" /\ Len(script) < Len0
     /\ script' = Append(script, [fl |-> [i \in 1..5 |-> R({-256, -205, -100, -1, 0, 0, 1, 51, 102, 205, 256})],
                                  op |-> [i \in 1..4 |-> R({-100, 0, 1, 150, 256, 512, 700, 777, 1023, 1024, 1300})],
                                  hold |-> R({0, 0, 1})])
     /\ UNCHANGED <<plan, done>>
  \/ /\ Len(script) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<plan, script>>
Spec == Init /\ [][Next]_<<plan, script, done>>
Out == done => Emit([plan |-> plan, script |-> script])
=============================================================================
