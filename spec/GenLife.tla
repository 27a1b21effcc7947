------------------------------- MODULE GenLife -----------------------------
(* Programs: one or two open circuits are set up completely, then up to three *)
(* calls are dropped, repeated, moved or given another reference. A second    *)
(* kind of behaviour lets values become invalid at some step of a run.        *)
EXTENDS Emit, Integers, Sequences, SequencesExt
VARIABLES base, ops, n, phase, nan, conf
R(S) == RandomElement(S)
Str(k) == <<"a", "b", "c", "d", "e", "f">>[k]
Drive == {"ppump", "fixed"}
Other == {"pipe", "heated", "heat2", "tes"}
(* circuit c with k further parts: names are c1, c2 .. as strings *)
Nm(c, i) == IF c = 1 THEN <<"p1", "p2", "p3">>[i] ELSE <<"q1", "q2", "q3">>[i]
Bc(c, e) == IF c = 1 THEN <<"BC_a", "BC_z">>[e] ELSE <<"BC_b", "BC_y">>[e]
Part(x, k) == [op |-> "part", n |-> x, kind |-> k]
Link(a, b) == IF R(BOOLEAN) THEN [op |-> "link", a |-> a, b |-> b] ELSE [op |-> "link", a |-> b, b |-> a]
Ctrl(x, y) == [op |-> "ctrl", n |-> "c" \o x, act |-> x, part |-> y, port |-> R({"in", "out"})]
Circuit(c, m, kinds) ==
  LET parts == [i \in 1..m |-> Part(Nm(c, i), kinds[i])]
      bcs == [e \in 1..2 |-> [op |-> "bc", n |-> Bc(c, e)]]
      links == [i \in 1..(m + 1) |-> IF i = 1 THEN Link(<<"BC", Bc(c, 1)>>, <<Nm(c, 1), "in">>)
                                     ELSE IF i = m + 1 THEN Link(<<Nm(c, m), "out">>, <<"BC", Bc(c, 2)>>)
                                     ELSE Link(<<Nm(c, i - 1), "out">>, <<Nm(c, i), "in">>)]
      act(i) == kinds[i] \in {"ppump", "heated"}
      ctrls == [i \in {j \in 1..m : act(j)} |-> Ctrl(Nm(c, i), Nm(c, R(1..m)))]
  IN parts \o bcs \o links \o SetToSeq({ctrls[i] : i \in DOMAIN ctrls})
(* the configuration is drawn in a step of its own: drawn values are used more than once *)
Conf(x) == [m |-> <<R(1..3), IF R(1..3) = 1 THEN R(1..3) ELSE 0>>, kinds |-> [c \in 1..2 |-> [i \in 1..3 |-> IF i = 1 THEN R(Drive) ELSE LET o == R(Other) IN IF o = "heat2" THEN "heated" ELSE o]]]
Base(x) == <<[op |-> "tf"]>> \o (IF R(BOOLEAN) THEN <<[op |-> "disk"], [op |-> "solver"]>> ELSE <<[op |-> "solver"], [op |-> "disk"]>>)
           \o Circuit(1, conf.m[1], conf.kinds[1]) \o (IF conf.m[2] > 0 THEN Circuit(2, conf.m[2], conf.kinds[2]) ELSE <<>>) \o <<[op |-> "init"], [op |-> "start"]>>
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, o) == SubSeq(s, 1, i - 1) \o <<o>> \o SubSeq(s, i, Len(s))
PortV == {"p1", "p2", "p3", "q1"} \X {"in", "out", "A", "x"}
BcV == {"BC"} \X {"BC_a", "BC_z", "BC_b", "BC_q"}
AnyPort(x) == IF R(1..3) = 1 THEN R(BcV) ELSE R(PortV)
Ref(o) == CASE o.op = "link" -> LET k == R(1..4) IN
                 IF k = 1 THEN [o EXCEPT !.a = AnyPort(0)] ELSE IF k = 2 THEN [o EXCEPT !.b = AnyPort(0)] ELSE IF k = 3 THEN [o EXCEPT !.b = o.a] ELSE [o EXCEPT !.a = o.b, !.b = o.a]
            [] o.op = "part" -> [o EXCEPT !.n = R({"p1", "p2", "p9", "q1"})]
            [] o.op = "bc" -> [o EXCEPT !.n = R({"BC_a", "BC_z", "BC_q"})]
            [] o.op = "ctrl" -> LET k == R(1..4) IN
                 IF k = 1 THEN [o EXCEPT !.act = R({"p1", "p2", "p9"})] ELSE IF k = 2 THEN [o EXCEPT !.part = R({"p1", "p2", "p9"})]
                 ELSE IF k = 3 THEN [o EXCEPT !.port = R({"in", "out", "x"})] ELSE [o EXCEPT !.n = "c9"]
            [] OTHER -> o
(* something complete in itself, connected to a port that is already connected *)
Pos(s) == LET k == {h \in DOMAIN s : s[h].op = "init"} IN R(IF k = {} THEN 1..(Len(s) + 1) ELSE 1..(CHOOSE h \in k : \A g \in k : h <= g))
Taken(s) == {s[h].a : h \in {g \in DOMAIN s : s[g].op = "link"}} \cup {s[h].b : h \in {g \in DOMAIN s : s[g].op = "link"}}
Extra(s) == IF Taken(s) = {} THEN s ELSE
  LET t == R(Taken(s))  a == Ins(s, Pos(s), [op |-> "bc", n |-> "BC_e"]) IN
  IF R(BOOLEAN) THEN Ins(a, Pos(a), Link(<<"BC", "BC_e">>, t))
  ELSE LET b == Ins(a, Pos(a), Part("p8", "pipe"))  c == Ins(b, Pos(b), Link(<<"BC", "BC_e">>, <<"p8", "in">>)) IN Ins(c, Pos(c), Link(<<"p8", "out">>, t))
Change(s) ==
  LET kindOf == R({s[h].op : h \in DOMAIN s})  i == R({h \in DOMAIN s : s[h].op = kindOf})  j == R(1..Len(s))  k == R({"drop", "twice", "twice", "move", "ref", "ref", "ref", "swap", "extra"}) IN
  CASE k = "drop" -> Cut(s, i)
    [] k = "twice" -> Ins(s, R((i + 1)..(Len(s) + 1)), IF R(BOOLEAN) THEN s[i] ELSE Ref(s[i]))
    [] k = "move" -> Ins(Cut(s, i), R(1..Len(s)), s[i])
    [] k = "ref" -> [s EXCEPT ![i] = Ref(@)]
    [] k = "extra" -> Extra(s)
    [] k = "swap" -> IF s[i].op = "link" /\ s[j].op = "link" /\ i # j THEN [s EXCEPT ![i].b = s[j].b, ![j].b = s[i].b] ELSE s
Init == conf = <<>> /\ base = <<>> /\ ops = <<>> /\ n = -1 /\ phase = 0 /\ nan = [step |-> 0]
Next == \/ phase = 0 /\ conf = <<>> /\ conf' = Conf(n) /\ UNCHANGED <<base, ops, n, phase, nan>>
        \/ phase = 0 /\ conf # <<>> /\ UNCHANGED conf /\ base' = Base(0) /\ ops' = base' /\ n' = R({0, 1, 1, 1, 2, 3}) /\ phase' = 1
           /\ nan' = [step |-> R({0, 1, 2, 3, 5, 8, 13}), row |-> R({0, 4, 5, 7, 100}), where |-> R({"T", "one"}), adaptive |-> R(BOOLEAN), part |-> R(1..3)]
        \/ phase = 1 /\ n > 0 /\ ops' = Change(ops) /\ n' = n - 1 /\ UNCHANGED <<base, phase, nan, conf>>
        \/ phase = 1 /\ n = 0 /\ phase' = 2 /\ UNCHANGED <<base, ops, n, nan, conf>>
Spec == Init /\ [][Next]_<<base, ops, n, phase, nan, conf>>
Out == phase = 2 => Emit([base |-> base, ops |-> ops, nan |-> nan])
=============================================================================
