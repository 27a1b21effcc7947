----------------------------- MODULE LossDesign ----------------------------
(* Loss over a grid of geometries, insulations and temperatures: losses have  *)
(* the sign of the temperature difference and grow with it, shrink with       *)
(* better or thicker insulation and never exceed what wall and insulation     *)
(* let through; capacities grow with the volume; conduction is antisymmetric. *)
(* Typical mistakes are further from the prediction than the tolerance.       *)
EXTENDS Loss, TLC
CONSTANTS Kinds, Sins, Lins, Ambs, Temps, Dxs
VARIABLES p, T
Geo == {<<216, 269>>, <<530, 603>>}
Shell(k) == IF k = "tes" THEN {<<3900, 4000>>, <<5440, 5500>>} ELSE Geo
Init == \E k \in Kinds : \E g \in Shell(k), s \in Sins, l \in Lins, a \in Ambs, dx \in Dxs, m \in {"carbon", "stainless"} :
          /\ p = [kind |-> k, di |-> g[1], do |-> g[2], sins |-> s, dx |-> dx, lins |-> l, mat |-> m, amb |-> a * 1000 - 10000]
          /\ T = 2000
Next == T < 90000 /\ T' = T + 8000 /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, T>>
Loss0(q, t) == LossAt(q, t, RIn(t))
All(q, t) == Loss0(q, t) + (IF q.kind = "tes" THEN LidLoss(q, t, TRUE, RIn(t)) + LidLoss(q, t, FALSE, RIn(t)) ELSE 0)
Slack(x) == 2 + Abs(x) \div 200
Sign == LET q == All(p, T) IN (T > p.amb => q <= 0) /\ (T < p.amb => q >= 0) /\ (T = p.amb => q = 0)
Grows == T + 8000 < 98000 => All(p, T + 8000) < All(p, T)
Balance == \* the film carries what the solid layers carry
  LET ri == RIn(T)  Ts == Surface(p, T, ri, 5)  ro == RFilm(p, Abs(Ts - p.amb), (Ts + p.amb) \div 2)
      a == MulDivX(T - Ts, 100000, ri + RSolid(p))  b == MulDivX(Ts - p.amb, 100000, ro)
  IN Abs(T - p.amb) > 1000 => Near(a, b, 30 + Abs(a) \div 80)
Insulation == /\ Abs(Loss0([p EXCEPT !.lins = @ \div 2], T)) <= Abs(Loss0(p, T)) + Slack(Loss0(p, T))
              /\ Abs(Loss0(p, T)) * 10 <= Abs(MulDivX(10 * (T - p.amb), p.dx * 1000, RSolid(p))) + 20
CapacityGrows == /\ Capacity([p EXCEPT !.dx = 2 * @], T) >= 2 * Capacity(p, T) - 2 /\ Capacity([p EXCEPT !.dx = 2 * @], T) <= 2 * Capacity(p, T) + 10
                 /\ Capacity([p EXCEPT !.do = @ + 20], T) > Capacity(p, T)
Symmetric == \A U \in Temps : Cond(p, T, U * 1000) = -Cond(p, U * 1000, T)
(* mistakes *)
Differs(x, y) == Abs(x - y) > 2 + Abs(x) \div 50
Recognises == Abs(T - p.amb) > 2000 =>
  /\ Differs(Loss0(p, T), Loss0([p EXCEPT !.sins = @ \div 2], T)) \/ p.lins > 50 \/ p.sins < 100   \* insulation half as thick
  /\ Differs(Loss0(p, T), MulDivX(p.amb - T, p.dx * 1000, RIn(T) + RSolid(p))) \/ (p.sins >= 100 /\ p.lins <= 100) \* no film outside
  /\ Differs(Loss0(p, T), MulDivX(Loss0(p, T), p.di, p.do)) \/ p.kind = "tes"                     \* inner instead of outer diameter
  /\ Differs(Capacity(p, T), MulDivX(MulDivX(Inside(p), p.dx, 1000), RhoCp(T), 10000))            \* wall forgotten
  /\ Abs(Abs(T - p.amb) - 20000) < 4000 /\ p.kind = "tes" => Differs(All(p, T), Loss0(p, T))      \* lids forgotten
=============================================================================
