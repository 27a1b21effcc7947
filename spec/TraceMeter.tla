----------------------------- MODULE TraceMeter ----------------------------
(* Meters of the real code judged with Meter. A record holds one meter: the   *)
(* simulated rows of the parts it observes and the columns it reported.       *)
EXTENDS Mon
M == INSTANCE Meter
StX == [t |-> <<>>, f |-> 0, off |-> 0]
Big(v) == \A i \in DOMAIN v : Abs(v[i]) < 2000000000
(* expected values of the rows, as the meter shows them *)
Shown(st, v) == IF st.f = 0 THEN v ELSE M!Resample(st.t, v, st.f, st.off)
Like(st, got, v, tol(_)) == LET e == Shown(st, v) IN Len(got) = Len(e) /\ \A i \in 1..Len(e) : Near(got[i], e[i], tol(e[i]))
Exact(x) == 2
Loose(x) == 4 + Abs(x) \div 250
Col(m, c) == [i \in 1..Len(m) |-> m[i][c]]
Temp(p, cell) == Col(p.T, M!CellCol(cell, Len(p.T[1])))
Flow(p, cell) == Col(p.dm, M!FlowCol(p.kind, cell, Len(p.T[1]), Len(p.dm[1])))
(* exact = 1e-6 K and mg/s *)
Point(st, r) ==
  LET T == Temp(r.p, r.cell)  d == Flow(r.p, r.cell) IN
  CASE r.kind = "temperature" -> Bit(Like(st, r.got, T, Exact), "temperature")
    [] r.kind = "massflow" -> Bit(Like(st, r.got, d, Exact), "massflow-" \o r.p.kind)
    [] r.kind = "volumeflow" -> Bit(Like(st, r.got, [i \in 1..Len(T) |-> M!Volume(d[i], T[i])], Loose), "volumeflow-" \o r.p.kind)
(* reported running sum against the reported rate, row by row *)
Sums(rate, acc, dt, tol) == /\ Len(acc) = Len(rate)
                            /\ \A i \in 1..Len(rate) : Near(acc[i] - (IF i = 1 THEN 0 ELSE acc[i - 1]), M!Inc(rate[i], dt[i]), tol + Abs(rate[i]) \div 50000)
Heat(st, r) ==
  LET Ta == Temp(r.w, r.wc)  Tb == Temp(r.c, r.cc)
      d == IF r.hot THEN Flow(r.w, r.wc) ELSE Flow(r.c, r.cc)
      n == Len(Ta)
      dT == [i \in 1..n |-> Ta[i] - Tb[i]]
      q == [i \in 1..n |-> M!HeatFlow(dT[i], d[i], Ta[i], Tb[i])]
      v == [i \in 1..n |-> M!Volume(d[i], Tb[i])]
      dt == M!Steps(st.t)
      g == r.got
      Tot(x) == SumSeq([i \in 1..n |-> Abs(M!Inc(x[i], dt[i]))])
      NearAcc(got, x) == LET e == Shown(st, M!Acc(x, dt, n)) t == Tot(x) \div 200 + 5 * n IN Len(got) = Len(e) /\ \A i \in 1..Len(e) : Near(got[i], e[i], t)
  IN Bit(Like(st, g.T_ff, Ta, Exact), "T_ff") \cup Bit(Like(st, g.T_rf, Tb, Exact), "T_rf") \cup Bit(Like(st, g.T_diff, dT, Exact), "T_diff")
     \cup Bit(Like(st, g.massflow_kgps, d, Exact), "heat-massflow-" \o (IF r.hot THEN r.w.kind ELSE r.c.kind))
     \cup Bit(Like(st, g.volume_flow_m3ps, v, Loose), "heat-volumeflow") \cup Bit(Like(st, g.heatflow_kW, q, Loose), "heatflow")
     \cup Bit(NearAcc(g.flown_mass_kg, d), "flown-mass") \cup Bit(NearAcc(g.flown_volume_m3, v), "flown-volume") \cup Bit(NearAcc(g.flown_heat_MJ, q), "flown-heat")
     \cup Bit(\A i \in DOMAIN g.flown_heat_MJ : Near(10 * g.flown_heat_MJ[i], 36 * g.flown_heat_kWh[i], 40), "kWh")
     \cup (IF st.f = 0 THEN Bit(Sums(g.massflow_kgps, g.flown_mass_kg, dt, 3), "mass-integral") \cup Bit(Sums(g.volume_flow_m3ps, g.flown_volume_m3, dt, 3), "volume-integral")
                            \cup Bit(Sums(g.heatflow_kW, g.flown_heat_MJ, dt, 3), "heat-integral") ELSE {})
     \cup (IF r.full THEN Bit(NearAcc(g.flown_mass_pos_kg, M!Positive(d)), "flown-mass-pos") \cup Bit(NearAcc(g.flown_volume_pos_m3, M!Positive(v)), "flown-volume-pos")
                          \cup Bit(NearAcc(g.flown_heat_pos_MJ, M!Positive(q)), "flown-heat-pos")
                          \cup Bit(\A i \in DOMAIN g.flown_heat_pos_MJ : Near(10 * g.flown_heat_pos_MJ[i], 36 * g.flown_heat_pos_kWh[i], 40), "kWh-pos")
           ELSE {})
SameAxis(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 1)
Axis(st) == IF st.f = 0 THEN st.t ELSE M!ResampleIdx(st.t, st.f, st.off)
JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> [t |-> r.t, f |-> r.f, off |-> r.off], bad |-> {}]
    [] r.ev = "point" -> [st |-> st, bad |-> Point(st, r) \cup Bit(SameAxis(r.idx, Axis(st)), "meter-axis") \cup Bit(r.frame, "frame") \cup Bit(r.disk, "disk")]
    [] r.ev = "heat" -> [st |-> st, bad |-> Heat(st, r) \cup Bit(SameAxis(r.idx, Axis(st)), "meter-axis") \cup Bit(r.frame, "frame") \cup Bit(r.disk, "disk")]
    [] r.ev = "end" -> [st |-> StX, bad |-> Bit(r.before = r.after, "meter-changed-results") \cup Bit(r.accepted = <<>>, "invalid-meter-accepted")]
    [] r.ev = "failed" -> [st |-> StX, bad |-> {}]
=============================================================================
