---------------------------- MODULE ThermDesign ----------------------------
(* A ring of two parts with two cells each and a side branch to a boundary:   *)
(* every conservative, upwind, symmetric plant satisfies the clauses of Therm *)
(* and the maximum principle follows; typical mistakes are recognised.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Temp, Flow, Gs
FlowC == {-1, 0, 1}
VARIABLES T, f, g, b, amb, ga, phase
Mul(m, du) == m * du
H == INSTANCE Therm WITH Flux <- Mul
(* ports: 1 A.in 2 A.out 3 A.x(side, cell 1)  4 B.in 5 B.out *)
Net == [ports |-> 5,
        parts |-> << [ports |-> <<1, 2, 3>>, kind |-> "branched", cells |-> <<0, 1, 1>>], [ports |-> <<4, 5>>, kind |-> "pipe", cells |-> <<0, 1>>] >>,
        links |-> << <<2, 4>>, <<5, 1>> >>, peer |-> <<5, 4, -1, 2, 1>>, own |-> << <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>> >>]
Flows(fl) == <<fl, -fl, 0, fl, -fl>>
Order == <<T[1], T[2], T[3], T[4]>>
N4(i) == IF i = 4 THEN 1 ELSE i + 1
P4(i) == IF i = 1 THEN 4 ELSE i - 1
(* the physics: heat stored in cell i *)
Good(i) == (IF f > 0 THEN f * (Order[P4(i)] - Order[i]) ELSE -f * (Order[N4(i)] - Order[i]))
           + g[P4(i)] * (Order[P4(i)] - Order[i]) + g[i] * (Order[N4(i)] - Order[i]) + ga * (amb - Order[i]) + (IF i = 2 THEN g[5] * (b - Order[2]) ELSE 0)
Downwind(i) == Good(i) + (IF f > 0 THEN f * (Order[N4(i)] - Order[P4(i)]) ELSE -f * (Order[P4(i)] - Order[N4(i)]))
OneSided(i) == Good(i) - (IF i = 3 THEN g[2] * (Order[2] - Order[3]) ELSE 0)
WrongSign(i) == Good(i) - 2 * ga * (amb - Order[i])
State(Q(_)) == [T |-> << <<T[1], T[2]>>, <<T[3], T[4]>> >>, u |-> << <<T[1], T[2]>>, <<T[3], T[4]>> >>, bT |-> <<b>>, bu |-> <<b>>, amb |-> amb, ins |-> ga = 0,
                q |-> << <<Q(1), Q(2)>>, <<Q(3), Q(4)>> >>, f |-> Flows(f)]
Init == /\ T \in [1..4 -> Temp] /\ f \in Flow /\ g = [i \in 1..5 |-> 0] /\ b \in Temp /\ amb \in Temp /\ ga \in {0, 1} /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ g' \in [1..5 -> Gs] /\ UNCHANGED <<T, f, b, amb, ga>>
Spec == Init /\ [][Next]_<<T, f, g, b, amb, ga, phase>>
ClosedNet == [Net EXCEPT !.peer = <<5, 4, 3, 2, 1>>]   \* without the side branch
Ok(Q(_)) == /\ \A k \in 1..2, c \in 1..2 : H!WarmToCold(Net, State(Q), k, c, 0)
            /\ g[5] = 0 => H!Kept(ClosedNet, State(Q), 0)
Accepts == Ok(Good)
MaxPrinciple == \A i \in 1..4 :
  /\ (\A x \in {T[j] : j \in 1..4} \cup {b, amb} : x <= T[i]) => Good(i) <= 0
  /\ (\A x \in {T[j] : j \in 1..4} \cup {b, amb} : x >= T[i]) => Good(i) >= 0
Equilibrium == (\A x \in {T[j] : j \in 1..4} \cup {b, amb} : x = T[1]) => \A i \in 1..4 : Good(i) = 0
Mirror == \* reversing the flow and the row of cells mirrors the rates (uniform conductance)
  (\A i \in 1..4 : g[i] = g[1]) => LET M == [i \in 1..4 |-> T[5 - i]] IN
    \A i \in {1, 3, 4} : Good(i) = (IF -f > 0 THEN -f * (M[P4(5 - i)] - M[5 - i]) ELSE f * (M[N4(5 - i)] - M[5 - i]))
                          + g[1] * (M[P4(5 - i)] - M[5 - i]) + g[1] * (M[N4(5 - i)] - M[5 - i]) + ga * (amb - M[5 - i])
(* reachable states in which a mistake shows are recognised there *)
Recognises == phase = 1 =>
  /\ (f # 0 /\ ga = 0 /\ T[1] = T[4] /\ T[2] # T[1] /\ \A i \in 1..5 : g[i] = 0) => ~Ok(Downwind)
  /\ (g[5] = 0 /\ ga = 0 /\ g[2] # 0 /\ T[2] # T[3]) => ~Ok(OneSided)
  /\ (ga = 1 /\ (\A i \in 1..4 : T[i] = T[1]) /\ b = T[1] /\ amb # T[1]) => ~Ok(WrongSign)
=============================================================================
