----------------------------- MODULE TraceTherm ----------------------------
(* Temperatures of real plants judged with Therm. Temperatures in uK (of a    *)
(* degC value), enthalpies in mJ/kg, flows in 2^-20 kg/s, heat in mW.   *)
EXTENDS Mon
Fl(m, du) == MulDivX(du, m, 1048576)
H == INSTANCE Therm WITH Flux <- Fl
StX == [net |-> <<>>, a |-> <<>>]
W == 1000
Apx(T) == 20 + T \div 100
MixTol(m) == 50 + 4 * m   \* one percent of 400 kJ/kg
CellTol(n, s, k, c) == 50 + s.cap[k][c] \div 320 + Abs(s.q[k][c]) \div 1000000
Plain(n) == \A k \in DOMAIN n.parts : n.parts[k].kind \notin {"conn", "mix", "split"}
Slack(n, s) == SumSeq([k \in DOMAIN n.parts |-> IF H!Solid(n, k) THEN SumSeq([c \in DOMAIN s.T[k] |-> CellTol(n, s, k, c)]) ELSE 0])
Real(n, s) == UNION {{<<k, c>> : c \in 1..Len(s.T[k])} : k \in {j \in DOMAIN n.parts : H!Solid(n, j)}}
Hollow(n, s) == UNION {{<<k, c>> : c \in 1..Len(s.T[k])} : k \in {j \in DOMAIN n.parts : ~H!Solid(n, j)}}
Kind(n, k) == n.parts[k].kind
Rate(n, s) ==
  {"warm-to-cold-" \o Kind(n, x[1]) : x \in {y \in Real(n, s) : ~H!WarmToCold(n, s, y[1], y[2], CellTol(n, s, y[1], y[2]))}}
  \cup {"passed-on-" \o Kind(n, x[1]) : x \in {y \in Hollow(n, s) : ~H!Shown(n, s, y[1], y[2], 20, Apx)}}
  \cup {"mixing-" \o Kind(n, x[1]) : x \in {y \in Hollow(n, s) : ~H!Mixed(n, s, y[1], y[2], MixTol)}}
  \cup Bit(H!Kept(n, s, Slack(n, s) + (IF Plain(n) THEN 0 ELSE 40 * W)), "energy")
(* a plant against its insulated twin: every cell exchanges heat with the ambient according to its own temperature *)
Amb(n, s, i) ==
  {"ambient-" \o Kind(n, x[1]) : x \in {y \in Real(n, s) :
     LET d == s.amb - s.T[y[1]][y[2]]  q == s.q[y[1]][y[2]] - i.q[y[1]][y[2]]  t == CellTol(n, s, y[1], y[2]) + CellTol(n, i, y[1], y[2]) IN
     ~(((d <= 0) => (q <= t)) /\ ((d >= 0) => (q >= -t)) /\ (Abs(d) < 100 => Abs(q) <= t))}}
(* whole runs *)
In(v, lo, hi) == \A i \in DOMAIN v : v[i] >= lo /\ v[i] <= hi
JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> [net |-> r.net, a |-> <<>>], bad |-> {}]
    [] r.ev = "rate" -> [st |-> st, bad |-> Rate(st.net, r.s)]
    [] r.ev = "ambient" -> [st |-> st, bad |-> Amb(st.net, r.s, r.i)]
    [] r.ev = "range" -> [st |-> st, bad |-> Bit(r.min >= r.lo - r.tol /\ r.max <= r.hi + r.tol, "leaves-range") \cup Bit(r.rows >= 2, "no-rows")]
    [] r.ev = "still" -> [st |-> st, bad |-> Bit(Near(r.min, r.T, 1) /\ Near(r.max, r.T, 1), "equilibrium") \cup Bit(r.rows >= 2, "no-rows")]
    [] r.ev = "kept" -> [st |-> st, bad |-> Bit(Abs(r.sum) <= 5 + r.moved \div 50, "energy-of-run")]
    [] r.ev = "mirror" -> [st |-> st, bad |-> Bit(\A k \in DOMAIN r.a : Len(r.a[k]) = Len(r.b[k]) /\ \A i \in DOMAIN r.a[k] : Near(r.a[k][i], r.b[k][i], 20), "mirror")]
    [] r.ev = "refused" -> [st |-> st, bad |-> {}]
    [] r.ev = "end" -> [st |-> StX, bad |-> {}]
=============================================================================
