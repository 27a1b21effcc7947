----------------------------- MODULE LifeDesign ----------------------------
(* The environment collects calls and builds the model when it is initialised. *)
(* Names are collected in maps, connections under their first port. For every  *)
(* sequence of calls the outcome is the one Life demands of the program.       *)
EXTENDS Life, TLC
CONSTANTS Free, CheckDup, CheckBC
Pipe(n) == [op |-> "part", n |-> n, kind |-> "fixed"]
Pump(n) == [op |-> "part", n |-> n, kind |-> "ppump"]
P(n, q) == <<n, q>>
Link(a, b) == [op |-> "link", a |-> a, b |-> b]
Ops == {[op |-> o] : o \in {"tf", "disk", "solver", "init", "start"}}
       \cup {Pipe("f"), Pump("p"), [op |-> "bc", n |-> "a"], [op |-> "bc", n |-> "z"],
             Link(P("BC", "a"), P("f", "in")), Link(P("f", "out"), P("BC", "z")), Link(P("f", "in"), P("f", "out")), Link(P("f", "in"), P("BC", "a")),
             Link(P("p", "in"), P("p", "out")),
             [op |-> "ctrl", n |-> "c", act |-> "p", part |-> "p", port |-> "in"]}
VARIABLES b0, ops, st, tf, disk, solver, parts, bcs, links, ctrls
vars == <<b0, ops, st, tf, disk, solver, parts, bcs, links, ctrls>>
Set3 == <<[op |-> "tf"], [op |-> "solver"], [op |-> "disk"]>>
Bc(n) == [op |-> "bc", n |-> n]
Pre == {<<>>, Set3, Append(Set3, Pipe("f")), Set3 \o <<Pipe("f"), Bc("a"), Bc("z")>>, Set3 \o <<Pump("p"), Link(P("p", "in"), P("p", "out"))>>}
Init == /\ \E pre \in Pre :
             /\ ops = pre /\ b0 = Len(pre)
             /\ tf = (pre # <<>>) /\ disk = (pre # <<>>) /\ solver = (pre # <<>>)
             /\ parts = {pre[i] : i \in {j \in DOMAIN pre : pre[j].op = "part"}}
             /\ bcs = {pre[i] : i \in {j \in DOMAIN pre : pre[j].op = "bc"}}
             /\ links = {pre[i] : i \in {j \in DOMAIN pre : pre[j].op = "link"}}
        /\ st = "new" /\ ctrls = {}
Key(l) == l.a
(* building goes through the collected connections in order of their keys and marks ports *)
Marks == [p \in (UNION {{<<x.n, q>> : q \in PortsOf(x.kind)} : x \in parts}) \cup {<<"BC", x.n>> : x \in bcs} |->
            Cardinality({l \in links : l.a = p}) + Cardinality({l \in links : l.b = p})]
Judged(p) == IF p[1] = "BC" /\ ~CheckBC THEN Marks[p] >= 1 ELSE Marks[p] = 1
BuildOk == /\ parts # {} /\ disk /\ tf /\ solver
           /\ \A l \in links : l.a \in DOMAIN Marks /\ l.b \in DOMAIN Marks /\ (l.a # l.b)
           /\ \A p \in DOMAIN Marks : Judged(p)
           /\ \A c \in ctrls : \E x \in parts : x.n = c.act /\ Needs(x.kind)
           /\ \A c, d \in ctrls : c # d => c.act # d.act
           /\ \A x \in parts : Needs(x.kind) => \E c \in ctrls : c.act = x.n
Fail == st' = "refused" /\ UNCHANGED <<tf, disk, solver, parts, bcs, links, ctrls>>
Do(o) ==
  /\ ops' = Append(ops, o) /\ UNCHANGED b0
  /\ CASE o.op = "tf" -> tf' = TRUE /\ UNCHANGED <<st, disk, solver, parts, bcs, links, ctrls>>
       [] o.op = "disk" -> disk' = TRUE /\ UNCHANGED <<st, tf, solver, parts, bcs, links, ctrls>>
       [] o.op = "solver" -> IF tf THEN solver' = TRUE /\ UNCHANGED <<st, tf, disk, parts, bcs, links, ctrls>> ELSE Fail
       [] o.op = "part" -> IF o \in parts THEN Fail ELSE parts' = parts \cup {o} /\ UNCHANGED <<st, tf, disk, solver, bcs, links, ctrls>>
       [] o.op = "bc" -> IF o \in bcs THEN Fail ELSE bcs' = bcs \cup {o} /\ UNCHANGED <<st, tf, disk, solver, parts, links, ctrls>>
       [] o.op = "ctrl" -> IF o \in ctrls THEN Fail ELSE ctrls' = ctrls \cup {o} /\ UNCHANGED <<st, tf, disk, solver, parts, bcs, links>>
       [] o.op = "link" -> IF CheckDup /\ \E l \in links : l.a = o.a THEN Fail
                           ELSE links' = {l \in links : l.a # o.a} \cup {o} /\ UNCHANGED <<st, tf, disk, solver, parts, bcs, ctrls>>
       [] o.op = "init" -> IF st = "new" /\ BuildOk THEN st' = "ready" /\ UNCHANGED <<tf, disk, solver, parts, bcs, links, ctrls>> ELSE Fail
       [] o.op = "start" -> IF st = "ready" THEN st' = "ran" /\ UNCHANGED <<tf, disk, solver, parts, bcs, links, ctrls>> ELSE Fail
Next == /\ st \in {"new", "ready"} /\ Len(ops) < b0 + Free
        /\ \E o \in Ops : (st = "ready" => o.op \in {"init", "start"}) /\ Do(o)
Spec == Init /\ [][Next]_vars
(* a run happens exactly for the programs that demand it; a refusal is either *)
(* demanded or the program can never be completed any more (a name given twice) *)
Doomed == \/ \E o \in {"part", "bc", "ctrl"} : ~Unique(ops, Len(ops) + 1, o)
          \/ \E p \in {ops[j].a : j \in Calls(ops, Len(ops) + 1, "link")} : Cardinality(Ends(ops, Len(ops) + 1, p)) > 1
Ran == st = "ran" => Verdict(ops) = "run"
Refused == st = "refused" => (Verdict(ops) = "refuse" \/ Doomed)
=============================================================================
