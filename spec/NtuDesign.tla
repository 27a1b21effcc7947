------------------------------ MODULE NtuDesign ----------------------------
(* Ntu over a grid of exchangers, flows and temperatures: effectiveness is     *)
(* between 0 and the limits known, grows with the transfer units and falls    *)
(* with the capacity ratio; conductance grows with flow, area and number of   *)
(* plates; typical mistakes leave the margin of TraceNtu.                     *)
EXTENDS Ntu, TLC
CONSTANTS Chans, Mats, Corrs, Plates, Temps, Flows
VARIABLES h, t, f, g
Init == \E c \in Chans, m \in Mats, k \in Corrs, p \in Plates, w \in {8000, 20000} :
          /\ h = [L |-> 50000, W |-> w, chan |-> c, thick |-> 500, dport |-> 2000, corner |-> 1000, passes |-> 1, plates |-> p, max |-> "supply", mat |-> m, corr |-> k, area |-> 0, cross |-> 0]
          /\ t = 30000 /\ f = 2000 /\ g \in Flows
Next == f < 700000 /\ f' = 2 * f /\ t' \in Temps /\ UNCHANGED <<h, g>>
Spec == Init /\ [][Next]_<<h, t, f, g>>
S(x, tm) == [f |-> x, n |-> <<tm, tm>>]
E0(hh, a, b) == EffRange(hh, a, b, 0)
A == S(f, t)
B == S(g, 60000)
Cond(hh, a, b) == LET x == Film(hh, LnNu(hh, Re100(hh, "supply", a.f, Tm(a)), Turbulent(Re100(hh, "supply", a.f, Tm(a))), Tm(a)), Tm(a))
                      y == Film(hh, LnNu(hh, Re100(hh, "demand", b.f, Tm(b)), Turbulent(Re100(hh, "demand", b.f, Tm(b))), Tm(b)), Tm(b))
                  IN LnUA(hh, x, y)
Limits == LET e == EffRange(h, A, B, 6000) IN e[1] > 0 /\ e[1] <= e[2] /\ e[2] <= 100000
Formula == \A N \in {1000, 50000, 100000, 300000, 1000000} : \A r \in {0, 20000, 50000, 90000, 99000, 99999, 100000} :
  /\ Eff(N, r) > 0 /\ Eff(N, r) <= 100000
  /\ Eff(N + N \div 10, r) >= Eff(N, r) - 2
  /\ r < 100000 => Eff(N, r + 1) <= Eff(N, r) + 30
  /\ Near(Eff(N, 0), 100000 - Exp(-N), 30)
  /\ Near(Eff(N, 100000), Part(N, N + 100000), 30)
GrowsWithFlow == f < 600000 => Cond(h, S(2 * f, t), B) >= Cond(h, A, B) - 20
GrowsWithArea == /\ Cond([h EXCEPT !.area = 2 * Plate(h)], A, B) - Cond(h, A, B) \in 69000..69600
                 /\ Cond([h EXCEPT !.thick = 1000], A, B) <= Cond(h, A, B)
SymmetricInSides == h.passes = 1 => Near(Cond(h, A, B), Cond([h EXCEPT !.max = "demand"], B, A), 20)
(* mistakes in ln of the conductance: more than the margin *)
Off(x, y) == Abs(x - y) > 7000
Regime(hh) == <<Turbulent(Re100(hh, "supply", f, t)), Turbulent(Re100(hh, "demand", g, 60000))>>
Same(hh) == Regime(hh) = Regime(h)
Wide == [h EXCEPT !.cross = DivR(h.chan * h.W, 500)]                          \* hydraulic diameter in place of the channel width
Narrow == [h EXCEPT !.chan = @ \div 2, !.cross = DivR(h.chan * h.W, 1000)]    \* diameter half as large
Recognises ==
  /\ h.plates <= 20 => Off(LnAreas([h EXCEPT !.plates = @ + 2]), LnAreas(h))   \* all plates count
  /\ (Same(Wide) /\ Regime(h) = <<TRUE, TRUE>> /\ h.corr = 0) => Off(Cond(Wide, A, B), Cond(h, A, B))
  /\ (Same(Narrow) /\ Regime(h) = <<FALSE, FALSE>>) => Off(Cond(Narrow, A, B), Cond(h, A, B))
=============================================================================
