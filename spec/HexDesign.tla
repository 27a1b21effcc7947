------------------------------ MODULE HexDesign ----------------------------
(* An exchanger of effectiveness e/4 between two reservoirs of water with     *)
(* heat capacity 1 per unit of flow: q = e/4 * Cmin * (Ta - Tb). The design    *)
(* satisfies the clauses of Hex in every state, the reservoirs approach each  *)
(* other and keep their energy; typical mistakes are recognised.              *)
EXTENDS Integers
CONSTANTS Flow, T0
FlowC == {-4, -2, -1, 0, 1, 2, 4}
VARIABLES Ta, Tb, fa, fb, e
X == INSTANCE Hex WITH Heat <- LAMBDA f, u : f * u
Cm == X!Min2(X!Abs(fa), X!Abs(fb))
Q == (e * Cm * (Ta - Tb)) \div 4
Div(q, f) == IF f = 0 THEN 0 ELSE q \div X!Abs(f)
Side(f, t, out, other) == [f |-> f, p |-> IF f = 0 THEN <<t, other>> ELSE IF f > 0 THEN <<t, out>> ELSE <<out, t>>,
                           n |-> IF f < 0 THEN <<other, t>> ELSE <<t, other>>,
                           up |-> IF f = 0 THEN <<t, other>> ELSE IF f > 0 THEN <<t, out>> ELSE <<out, t>>,
                           un |-> IF f < 0 THEN <<other, t>> ELSE <<t, other>>]
Good(f, t, q) == Side(f, t, t + Div(q, f), 7)
A == Good(fa, Ta, -Q)
B == Good(fb, Tb, Q)
Ok(a, b) == /\ \A s \in {a, b} : X!Enters(s, 0) /\ X!Rests(s, 0)
            /\ X!Alone(a, b, 0) /\ X!Alone(b, a, 0) /\ X!Between(a, b, 0) /\ X!Downhill(a, b, 0) /\ X!Downhill(b, a, 0)
            /\ X!Balance(a, b, 0, 0)
            /\ (e > 0 => X!Works(a, b, 1))
Init == Ta \in T0 /\ Tb \in T0 /\ fa = 0 /\ fb = 0 /\ e = 0
(* unit reservoirs: temperatures are multiples of 64 at first *)
Exact == (e' * X!Min2(X!Abs(fa'), X!Abs(fb')) * (Ta - Tb)) % (4 * X!Max2(1, X!Abs(fa')) * X!Max2(1, X!Abs(fb'))) = 0
Drift == LET q == Q \div 8 IN Q % 8 = 0 /\ Ta' = Ta - q /\ Tb' = Tb + q
Next == \/ fa' \in Flow /\ fb' \in Flow /\ e' \in 0..4 /\ Exact /\ UNCHANGED <<Ta, Tb>>
        \/ Drift /\ fa' = 0 /\ fb' = 0 /\ e' = 0
Spec == Init /\ [][Next]_<<Ta, Tb, fa, fb, e>>
Accepts == Ok(A, B)
Sum == \E x \in T0, y \in T0 : Ta + Tb = x + y
Closer == [][X!Abs(Ta' - Tb') <= X!Abs(Ta - Tb)]_<<Ta, Tb, fa, fb, e>>
Swapped == Ok(B, A)
Recognises ==
  /\ (Q # 0 /\ Div(Q, fa) # 0) => /\ ~Ok(A, Good(fb, Tb, 0))                    \* heat lost
                 /\ ~Ok(Good(fa, Ta, Q), Good(fb, Tb, -Q))        \* uphill
  /\ (Q # 0 /\ X!Abs(fa) # X!Abs(fb)) => ~Ok(A, Side(fb, Tb, Tb - (A.p[X!Exit(A)] - Ta), 7))   \* same temperature change on both sides
  /\ (fa # 0 /\ fb = 0 /\ Ta # Tb) => ~Ok(Side(fa, Ta, Tb, 7), B)                   \* side at rest takes part
  /\ (fa < 0 /\ A.p[1] # A.p[2]) => ~Ok([A EXCEPT !.p = <<@[2], @[1]>>], B)         \* reversed flow not noticed
=============================================================================
