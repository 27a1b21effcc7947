----------------------------- MODULE TraceLoss -----------------------------
(* Rates of temperature change of real parts without advection, judged with  *)
(* Loss. Rates in nK/s.                                                      *)
EXTENDS Mon, Loss
StX == 0
Dim(c) == IF c.kind = "tes" THEN <<c.d - 2 * c.shell, c.d>> ELSE PipeDim[c.type][c.dn]
Part(c) == [kind |-> c.kind, di |-> Dim(c)[1], do |-> Dim(c)[2], sins |-> c.sins, dx |-> c.dx, lins |-> c.lins, mat |-> c.mat, amb |-> 125 * c.amb]
(* heat gained by cell i according to its rate *)
Gain(p, T, r, i) == MulDivX(r, Capacity(p, T), 1000000)
Cell(p, T, r, i, flow) ==
  LET q == Gain(p, T[i], r[i], i)  ri == RIn(T[i])
      still == LossAt(p, T[i], ri)  lid == Lids(p, T, i, ri)
      moved == IF flow THEN LossAt(p, T[i], 0) + Lids(p, T, i, 0) ELSE still + lid   \* a flow reduces the inner resistance
      u == Up(p, T, i)  d == Down(p, T, i)
      tol == 2 + Abs(still) \div 50 + Abs(u) \div 100 + Abs(d) \div 100 + Abs(lid) \div 33 + Capacity(p, T[i]) \div 40000
  IN [q |-> q, tol |-> tol, lo |-> Min2(still + lid, moved) + u + d, hi |-> Max2(still + lid, moved) + u + d, u |-> u, d |-> d, l |-> still, lid |-> lid]
Right(p, T, r, i, flow) == LET c == Cell(p, T, r, i, flow) IN c.q >= c.lo - c.tol /\ c.q <= c.hi + c.tol
Expect(c, T, r, i) == [p |-> Part(c), C |-> Capacity(Part(c), T[i]), c |-> Cell(Part(c), T, r, i, c.flow # 0)]
Judge0(r) == LET c == r.c  p == Part(c) IN
  IF ~Stable(p, r.T) THEN {}
  ELSE {IF p.kind = "tes" /\ i \in {1, Len(r.T)} THEN "end-cell-" \o p.kind ELSE "cell-" \o p.kind : i \in {j \in DOMAIN r.T : ~Right(p, r.T, r.r, j, c.flow # 0)}}
JudgeX(st, r) ==
  CASE r.ev = "rates" -> [st |-> st, bad |-> Judge0(r) \cup Bit(Len(r.r) = Len(r.T) /\ r.fl = r.c.flow, "plant")]
    [] r.ev = "end" -> [st |-> st, bad |-> {}]
=============================================================================
