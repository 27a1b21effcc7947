-------------------------------- MODULE Hex --------------------------------
(* A heat exchanger with two sides. A side is [f, p, n]: its flow f (positive *)
(* from port 1 to port 2), the temperatures p shown at its two ports and the  *)
(* temperatures n of the neighbours of these ports; up and un are the         *)
(* enthalpies of water of these temperatures and Heat(f, u) the heat of a     *)
(* flow f whose enthalpy changes by u.                                        *)
EXTENDS Num
CONSTANT Heat(_, _)
Entry(s) == IF s.f > 0 THEN 1 ELSE 2
Exit(s) == 3 - Entry(s)
Tin(s) == s.n[Entry(s)]
Tout(s) == s.p[Exit(s)]
(* what enters is what the neighbour upstream has *)
Enters(s, tol) == s.f # 0 => Near(s.p[Entry(s)], s.n[Entry(s)], tol)
(* a side at rest shows its neighbours *)
Rests(s, tol) == s.f = 0 => (Near(s.p[1], s.n[1], tol) /\ Near(s.p[2], s.n[2], tol))
(* nothing is exchanged with a side at rest *)
Alone(a, b, tol) == (a.f # 0 /\ b.f = 0) => Near(Tout(a), Tin(a), tol)
Both(a, b) == a.f # 0 /\ b.f # 0
Lo(a, b) == Min2(Tin(a), Tin(b))
Hi(a, b) == Max2(Tin(a), Tin(b))
Between(a, b, tol) == Both(a, b) => \A s \in {a, b} : Tout(s) >= Lo(a, b) - tol /\ Tout(s) <= Hi(a, b) + tol
(* heat flows from the warmer to the colder inlet *)
Downhill(a, b, tol) == (Both(a, b) /\ Tin(a) >= Tin(b)) => (Tout(a) <= Tin(a) + tol /\ Tout(b) >= Tin(b) - tol)
Gain(s) == Heat(Abs(s.f), s.up[Exit(s)] - s.un[Entry(s)])
Balance(a, b, rel, tol) == Both(a, b) => Abs(Gain(a) + Gain(b)) <= tol + (Max2(Abs(Gain(a)), Abs(Gain(b))) \div 1000) * rel
(* heat is exchanged wherever there is a difference *)
Works(a, b, dmin) == (Both(a, b) /\ Abs(Tin(a) - Tin(b)) >= dmin) => (Tout(a) # Tin(a) \/ Tout(b) # Tin(b))
(* a trickle leaves with nearly the temperature of the other side's inlet: the *)
(* sides run against each other                                               *)
Trickle(a, b, f, dmin) == (Both(a, b) /\ Min2(Abs(a.f), Abs(b.f)) <= f /\ Abs(Tin(a) - Tin(b)) >= dmin) =>
  \E s \in {a, b} : Abs(Tout(s) - Tin(s)) >= (Abs(Tin(a) - Tin(b)) \div 10) * 8
=============================================================================
