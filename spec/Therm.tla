------------------------------- MODULE Therm --------------------------------
(* Heat transport in a plant. Parts are rows of cells (finite volumes); pumps, *)
(* connectors and valves have no volume and show at each of their ports the    *)
(* temperature a neighbour sees there. On top of FlowNet a net n has           *)
(*   peer    for every port the linked port, or -k for boundary k              *)
(*   own     for every port <<part, index of the port in the part>>            *)
(* and a thermal state s has                                                    *)
(*   T, u    per part: temperature and enthalpy of its cells (of its ports when *)
(*           it has no volume)                                                  *)
(*   bT, bu  the same of the boundaries;  amb ambient temperature;  ins         *)
(*           whether the plant is insulated from the ambient                    *)
(*   q       per part: rate of heat stored in every cell                        *)
(*   f       flow into the part of every port                                   *)
(* Flux(m, du) must have the unit of q.                                         *)
EXTENDS FlowNet
CONSTANT Flux(_, _)
Solid(n, k) == n.parts[k].kind \notin {"pump", "conn", "mix", "split"}
SeenAt(n, p, X, bX) == LET q == n.peer[p] IN
  IF q < 0 THEN bX[-q]
  ELSE LET o == n.own[q] IN IF Solid(n, o[1]) THEN X[o[1]][n.parts[o[1]].cells[o[2]] + 1] ELSE X[o[1]][o[2]]
Seen(n, s, p) == SeenAt(n, p, s.T, s.bT)
SeenU(n, s, p) == SeenAt(n, p, s.u, s.bu)
PortsAt(n, k, c) == {n.parts[k].ports[j] : j \in {i \in DOMAIN n.parts[k].ports : n.parts[k].cells[i] = c - 1}}

(* heat carried into cell c (1-based) of part k by the fluid: only from where it comes *)
RECURSIVE AdvPorts(_, _, _, _)
AdvPorts(n, s, P, u) == IF P = {} THEN 0
  ELSE LET p == CHOOSE x \in P : TRUE IN (IF s.f[p] > 0 THEN Flux(s.f[p], SeenU(n, s, p) - u) ELSE 0) + AdvPorts(n, s, P \ {p}, u)
Adv(n, s, k, c) ==
  LET u == s.u[k]  nc == Len(u)
      top == IF c > 1 THEN Through(n.parts[k], s.f, c - 2, 1) ELSE 0
      bot == IF c < nc THEN Through(n.parts[k], s.f, c - 1, 1) ELSE 0
  IN (IF top > 0 THEN Flux(top, u[c - 1] - u[c]) ELSE 0) + (IF bot < 0 THEN Flux(-bot, u[c + 1] - u[c]) ELSE 0)
     + AdvPorts(n, s, PortsAt(n, k, c), u[c])
(* what is not carried by the fluid is conducted, driven by these differences *)
Cond(n, s, k, c) == s.q[k][c] - Adv(n, s, k, c)
Drive(n, s, k, c) ==
  LET T == s.T[k] IN
  {T[i] - T[c] : i \in {c - 1, c + 1} \cap DOMAIN T} \cup {Seen(n, s, p) - T[c] : p \in PortsAt(n, k, c)}
  \cup (IF s.ins THEN {} ELSE {s.amb - T[c]})
WarmToCold(n, s, k, c, tol) ==
  LET d == Drive(n, s, k, c)  q == Cond(n, s, k, c) IN
  /\ (\A x \in d : x <= 0) => q <= tol
  /\ (\A x \in d : x >= 0) => q >= -tol
RECURSIVE CondSum(_, _, _, _)
CondSum(n, s, k, c) == IF c = 0 THEN 0 ELSE Cond(n, s, k, c) + CondSum(n, s, k, c - 1)
RECURSIVE Total(_, _, _)
Total(n, s, k) == IF k = 0 THEN 0 ELSE (IF Solid(n, k) THEN CondSum(n, s, k, Len(s.T[k])) ELSE 0) + Total(n, s, k - 1)
Closed(n) == \A p \in DOMAIN n.peer : n.peer[p] > 0
(* conducted heat only moves around in a closed, insulated plant *)
Kept(n, s, tol) == (s.ins /\ Closed(n)) => Abs(Total(n, s, Len(n.parts))) <= tol

(* parts without volume *)
In(n, s, k) == {n.parts[k].ports[j] : j \in {i \in DOMAIN n.parts[k].ports : s.f[n.parts[k].ports[i]] > 0}}
LowSeen(n, s, P) == CHOOSE x \in {Seen(n, s, p) : p \in P} : \A p \in P : x <= Seen(n, s, p)
HighSeen(n, s, P) == CHOOSE x \in {Seen(n, s, p) : p \in P} : \A p \in P : x >= Seen(n, s, p)
RECURSIVE MixU(_, _, _, _)
MixU(n, s, P, ref) == IF P = {} THEN 0 ELSE LET p == CHOOSE x \in P : TRUE IN Flux(s.f[p], SeenU(n, s, p) - ref) + MixU(n, s, P \ {p}, ref)
RECURSIVE SumFlow(_, _)
SumFlow(s, P) == IF P = {} THEN 0 ELSE LET p == CHOOSE x \in P : TRUE IN s.f[p] + SumFlow(s, P \ {p})
(* port j of part k shows: tolT for passing on, apx(T) for mixing with mean heat capacities *)
Shown(n, s, k, j, tolT, Apx(_)) ==
  LET p == n.parts[k].ports[j]  I == In(n, s, k)  all == {n.parts[k].ports[i] : i \in DOMAIN n.parts[k].ports}
      x == s.T[k][j]
      rest == all \ {p}
      exact == Cardinality(I) = 1 /\ ~(n.parts[k].kind \in {"mix", "split"} /\ s.f[p] < 0 /\ s.f[n.parts[k].ports[3]] < 0)
  IN IF n.parts[k].kind = "pump" THEN Near(x, LowSeen(n, s, rest), tolT)
     ELSE IF s.f[p] < 0 /\ I # {}
          THEN IF exact THEN Near(x, LowSeen(n, s, I), tolT)
               ELSE /\ x >= LowSeen(n, s, I) - Apx(LowSeen(n, s, I)) /\ x <= HighSeen(n, s, I) + Apx(HighSeen(n, s, I))
          ELSE x >= LowSeen(n, s, all) - tolT /\ x <= HighSeen(n, s, all) + tolT
(* mixing keeps the enthalpy: flow times (mixed enthalpy - enthalpy of each inflow) sums to nothing *)
Mixed(n, s, k, j, Tol(_)) ==
  LET p == n.parts[k].ports[j]  I == In(n, s, k) IN
  (n.parts[k].kind # "pump" /\ s.f[p] < 0 /\ I # {}) =>
     Abs(MixU(n, s, I, s.u[k][j])) <= Tol(SumFlow(s, I))
=============================================================================
