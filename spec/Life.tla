-------------------------------- MODULE Life -------------------------------
(* Programs that set up and run a simulation, as sequences of calls           *)
(*   [op |-> "tf" | "disk" | "solver" | "init" | "start"]                      *)
(*   [op |-> "part", n, kind]   [op |-> "bc", n]   [op |-> "link", a, b]        *)
(*   [op |-> "ctrl", n, act, part, port]                                       *)
(* a port is <<part, port>>, a boundary condition <<"BC", name>>.              *)
EXTENDS Num
PortsOf(kind) == CASE kind \in {"pipe", "ppump", "fixed", "heated", "tes"} -> {"in", "out"}
                   [] kind = "conn" -> {"A", "B", "C"}
Needs(kind) == kind \in {"ppump", "heated"}
Upto(ops, i) == {j \in DOMAIN ops : j < i}
Has(ops, i, o) == \E j \in Upto(ops, i) : ops[j].op = o
First(ops, o) == CHOOSE i \in DOMAIN ops : ops[i].op = o /\ \A j \in Upto(ops, i) : ops[j].op # o
Calls(ops, i, o) == {j \in Upto(ops, i) : ops[j].op = o}
Ports(ops, i) == UNION {{<<ops[j].n, q>> : q \in PortsOf(ops[j].kind)} : j \in Calls(ops, i, "part")} \cup {<<"BC", ops[j].n>> : j \in Calls(ops, i, "bc")}
(* ends of links: <<call, 1 or 2>> *)
Ends(ops, i, p) == {e \in Calls(ops, i, "link") \X {1, 2} : (IF e[2] = 1 THEN ops[e[1]].a ELSE ops[e[1]].b) = p}
Connected(ops, i) == /\ \A p \in Ports(ops, i) : Cardinality(Ends(ops, i, p)) = 1
                     /\ \A j \in Calls(ops, i, "link") : ops[j].a \in Ports(ops, i) /\ ops[j].b \in Ports(ops, i)
Controls(ops, i, n) == {j \in Calls(ops, i, "ctrl") : ops[j].act = n}
Controlled(ops, i) ==
  /\ \A j \in Calls(ops, i, "part") : Cardinality(Controls(ops, i, ops[j].n)) = (IF Needs(ops[j].kind) THEN 1 ELSE 0)
  /\ \A j \in Calls(ops, i, "ctrl") :
       /\ \E k \in Calls(ops, i, "part") : ops[k].n = ops[j].act
       /\ \E k \in Calls(ops, i, "part") : ops[k].n = ops[j].part /\ ops[j].port \in PortsOf(ops[k].kind)
Unique(ops, i, o) == \A j, k \in Calls(ops, i, o) : j # k => ops[j].n # ops[k].n
(* what must be given before a simulation can be initialised at call i *)
Complete(ops, i) == /\ Has(ops, i, "tf") /\ Has(ops, i, "disk") /\ Has(ops, i, "solver") /\ Has(ops, i, "part")
                    /\ Unique(ops, i, "part") /\ Unique(ops, i, "bc") /\ Unique(ops, i, "ctrl")
                    /\ Connected(ops, i) /\ Controlled(ops, i)
(* calls that may not succeed *)
Wrong(ops, i) ==
  CASE ops[i].op = "solver" -> ~Has(ops, i, "tf")
    [] ops[i].op = "init" -> Has(ops, i, "init") \/ ~Complete(ops, i)
    [] ops[i].op = "start" -> ~Has(ops, i, "init")
    [] OTHER -> FALSE
FirstWrong(ops) == CHOOSE i \in DOMAIN ops : Wrong(ops, i) /\ \A j \in Upto(ops, i) : ~Wrong(ops, j)
(* after the initialisation the model is fixed; later changes are not judged *)
Open(ops) == \E i \in DOMAIN ops : ops[i].op \notin {"init", "start"} /\ Has(ops, i, "init")
(* verdict on a program: must it run, must it be refused, or neither *)
Verdict(ops) == IF \E i \in DOMAIN ops : Wrong(ops, i) THEN "refuse"
                ELSE IF Open(ops) \/ ~\E i \in DOMAIN ops : ops[i].op = "start" THEN "any" ELSE "run"
=============================================================================
