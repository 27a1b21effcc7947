------------------------------ MODULE FlowNet -------------------------------
(* Hydraulic networks. A network n has                                        *)
(*   ports   number of ports, numbered 1..ports                               *)
(*   parts   sequence of [ports: <<port,...>>, kind, cells: <<cell of port>>] *)
(*   links   sequence of <<port, port>>  (ports not listed are open ends)     *)
(*   pumps   sequence of [port, cmd]     (cmd: index of the command)          *)
(*   valves  sequence of [a, b, ab, cmd]                                      *)
(* A flow field f gives for every port the mass flow INTO its part.           *)
(* Openings are in 1/1024.                                                    *)
EXTENDS Num

Conserved(n, f, tol) == \A k \in DOMAIN n.parts :
                          n.parts[k].kind = "two" \/ Abs(SumSeq([j \in DOMAIN n.parts[k].ports |-> f[n.parts[k].ports[j]]])) <= tol
Linked(n, f, tol) == \A k \in DOMAIN n.links : Near(f[n.links[k][1]], -f[n.links[k][2]], tol)
Pumped(n, f, cmd, tol) == \A k \in DOMAIN n.pumps : Near(f[n.pumps[k].port], cmd[n.pumps[k].cmd], tol)
Valved(n, f, op, tol) == \A k \in DOMAIN n.valves :
  LET v == n.valves[k] IN
  /\ Near(f[v.a], -MulDiv(f[v.ab], op[v.cmd], 1024), tol)
  /\ Near(f[v.b], -MulDiv(f[v.ab], 1024 - op[v.cmd], 1024), tol)

(* flow through cell c of a part: everything that entered up to this cell      *)
RECURSIVE Through(_, _, _, _)
Through(p, f, c, k) == IF k > Len(p.ports) THEN 0
                       ELSE (IF p.cells[k] <= c THEN f[p.ports[k]] ELSE 0) + Through(p, f, c, k + 1)
(* recorded flows of a part: one value (pipes), one per port (connectors,      *)
(* valves; sign of the port), or one per cell                                 *)
Recorded(p, f, rec, tol) ==
  CASE p.rec = "one" -> Near(rec[1], f[p.ports[1]], tol)
    [] p.rec = "ports" -> \A j \in DOMAIN p.ports : Near(rec[j], p.sign[j] * f[p.ports[j]], tol)
    [] p.rec = "cells" -> \A c \in 1..Len(rec) :
                            Near(rec[c], Through(p, f, Min2(c - 1, Len(rec) - 2), 1), tol)
    [] OTHER -> TRUE

(* flows that can be computed step by step from the pumps: through links,      *)
(* through valves from any of their ports, through other parts once only one   *)
(* port is left                                                                *)
PortsOf(p) == {p.ports[j] : j \in DOMAIN p.ports}
Grow(n, K) ==
  K \cup {n.links[k][1] : k \in {j \in DOMAIN n.links : n.links[j][2] \in K}}
    \cup {n.links[k][2] : k \in {j \in DOMAIN n.links : n.links[j][1] \in K}}
    \cup UNION {PortsOf(n.parts[k]) : k \in {j \in DOMAIN n.parts :
               \/ Cardinality(PortsOf(n.parts[j]) \ K) <= 1
               \/ /\ n.parts[j].kind \in {"pvalve", "mix", "split"}
                  /\ PortsOf(n.parts[j]) \cap K # {}}}
RECURSIVE Known(_, _)
Known(n, K) == LET G == Grow(n, K) IN IF G = K THEN K ELSE Known(n, G)
Solvable(n) == Known(n, {n.pumps[k].port : k \in DOMAIN n.pumps}) = 1..n.ports
=============================================================================
