------------------------------ MODULE TraceHex -----------------------------
(* Real heat exchangers judged with Hex: temperatures in uK of their degC     *)
(* value, enthalpies in 10 mJ/kg, flows in 2^-20 kg/s, heat in W/80.          *)
EXTENDS Mon
X == INSTANCE Hex WITH Heat <- LAMBDA f, u : MulDivX(u, f, 1048576 \div 8) \div 10
StX == [seen |-> <<>>]
Tol == 2
One(a, b) ==
  UNION {Bit(X!Enters(s, Tol), "enters") \cup Bit(X!Rests(s, Tol), "rests") : s \in {a, b}}
  \cup Bit(X!Alone(a, b, Tol) /\ X!Alone(b, a, Tol), "alone")
  \cup Bit(X!Between(a, b, Tol), "between")
  \cup Bit(X!Downhill(a, b, Tol) /\ X!Downhill(b, a, Tol), "downhill")
  \cup Bit(X!Balance(a, b, 20, 80), "balance")
  \cup Bit(X!Works(a, b, 1000000), "works")
  \cup Bit(X!Trickle(a, b, 1024, 5000000), "trickle")
Key(r) == <<r.a.f, r.b.f, r.a.n, r.b.n>>
Val(r) == <<r.a.p, r.b.p>>
Past(st, r) == \A i \in DOMAIN st.seen : st.seen[i][1] = Key(r) => st.seen[i][2] = Val(r)
Flip(a, m) == \A i \in 1..2 : Near(a.p[i], m.p[i], Tol)
(* a discretised exchanger: rows of cells supply, wall, demand of one channel *)
(* pair; q is the heat (100 uW) each cell takes up besides that brought by    *)
(* its flow, nb the neighbours [row, column, T] upstream                       *)
Rows(r) == 1..Len(r.T)
Touch(r, i, c) == {r.T[j][c] : j \in {i - 1, i + 1} \cap Rows(r)} \cup {r.T[i][d] : d \in {c - 1, c + 1} \cap 1..3}
                  \cup {r.nb[k][3] : k \in {m \in 1..2 : r.nb[m][1] = i /\ r.nb[m][2] = c}}
CTol(r, i, c) == 100 + r.cap[i][c]
CellOk(r, i, c) == /\ (\A t \in Touch(r, i, c) : t <= r.T[i][c]) => r.q[i][c] <= CTol(r, i, c)
                   /\ (\A t \in Touch(r, i, c) : t >= r.T[i][c]) => r.q[i][c] >= -CTol(r, i, c)
Flat(f(_, _), n) == SumSeq([k \in 1..(3 * n) |-> f(((k - 1) \div 3) + 1, ((k - 1) % 3) + 1)])
Big(r) == Flat(LAMBDA i, c : Abs(r.q[i][c]) \div 1000, Len(r.T))
Col(r, c) == SumSeq([i \in Rows(r) |-> r.q[i][c]])
Num3(r) == UNION {Bit(CellOk(r, i, c), "warm-to-cold") : i \in Rows(r), c \in 1..3}
  \cup Bit(Abs(Flat(LAMBDA i, c : r.q[i][c], Len(r.T))) <= Flat(LAMBDA i, c : CTol(r, i, c), Len(r.T)) + 2 * Big(r), "energy")
  \cup Bit(\A i \in Rows(r), c \in 1..3 : Near(r.q[i][c], r.mq[i][c], CTol(r, i, c)), "sides-not-alike")
  \cup Bit(r.n[1] = r.n[2] \/ Abs(Col(r, 1)) + Abs(Col(r, 3)) <= 1000, "balance-unequal-channels")
JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> StX, bad |-> {}]
    [] r.ev = "hex" -> [st |-> [seen |-> Append(st.seen, <<Key(r), Val(r)>>)],
                        bad |-> One(r.a, r.b) \cup Bit(Past(st, r), "depends-on-history") \cup Bit(Flip(r.a, r.ma) /\ Flip(r.b, r.mb), "sides-not-alike")]
    [] r.ev = "num" -> [st |-> st, bad |-> Num3(r)]
    [] r.ev = "run" -> [st |-> st, bad |-> Bit(r.min >= r.lo - r.tol /\ r.max <= r.hi + r.tol, "leaves-range") \cup Bit(r.rows >= 2, "no-rows")
                                      \cup Bit(Abs(r.sum) <= 5 + (r.moved \div 100) * 3, "energy-of-run")]
    [] r.ev = "end" -> [st |-> StX, bad |-> {}]
=============================================================================
