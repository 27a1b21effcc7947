----------------------------- MODULE BuildOrder -----------------------------
(* Building a model: construction calls are recorded in any order and carried *)
(* out when the simulation is initialized (parts, then open ports, then       *)
(* connections, then controllers). What is built is the same for every order  *)
(* of the calls and for both orientations of a connection.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Parts, Links, Ctrls      \* Links: sets of two ports; Ctrls: pairs <<actuator, observed>>
VARIABLES todo, postponed, model, refused
Calls == {<<"part", p>> : p \in Parts} \cup {<<"link", l>> : l \in Links} \cup {<<"ctrl", c>> : c \in Ctrls}
Empty == [parts |-> {}, flow |-> {}, ctrls |-> {}]
Init == todo = Calls /\ postponed = <<>> /\ model = Empty /\ refused = FALSE
Issue(c) == c \in todo /\ todo' = todo \ {c}
            /\ \E o \in {0, 1} : postponed' = Append(postponed, <<c[1], c[2], o>>)   \* o: orientation
            /\ UNCHANGED <<model, refused>>
Rank(k) == CASE k = "part" -> 1 [] k = "link" -> 2 [] k = "ctrl" -> 3
RECURSIVE Carry(_, _, _)
Carry(q, m, k) == IF q = <<>> THEN m
  ELSE LET c == Head(q) IN
       Carry(Tail(q),
             IF c[1] # k THEN m
             ELSE CASE k = "part" -> [m EXCEPT !.parts = @ \cup {c[2]}]
                    [] k = "link" -> [m EXCEPT !.flow = @ \cup {c[2]}]
                    [] k = "ctrl" -> [m EXCEPT !.ctrls = @ \cup {c[2]}], k)
Realize == /\ todo = {} /\ model = Empty
           /\ model' = Carry(postponed, Carry(postponed, Carry(postponed, Empty, "part"), "link"), "ctrl")
           /\ UNCHANGED <<todo, postponed, refused>>
Next == (\E c \in todo : Issue(c)) \/ Realize
Spec == Init /\ [][Next]_<<todo, postponed, model, refused>>
Confluent == model # Empty => model = [parts |-> Parts, flow |-> Links, ctrls |-> Ctrls]
=============================================================================
