---------------------------- MODULE MeterDesign ----------------------------
(* Running meters: for every history of flows and temperatures the sums are   *)
(* what accumulating step by step gives, positive sums never decrease and     *)
(* exceed the signed ones, heat changes sign with the flow and with the       *)
(* temperature difference, and the property tables are monotone and sane.     *)
EXTENDS Meter, TLC
CONSTANTS MaxRows, Flows, Temps, Dts
VARIABLES ts, dm, Ta, Tb, sum, psum
vars == <<ts, dm, Ta, Tb, sum, psum>>
Mega(x) == x * 1000000
Init == \E f, g \in Flows, a, b \in Temps, t \in Dts :
          /\ ts = <<0, t>> /\ dm = <<f, g>> /\ Ta = <<Mega(a), Mega(a)>> /\ Tb = <<Mega(b), Mega(b)>>
          /\ sum = 0 /\ psum = 0
Q(i) == HeatFlow(Ta[i] - Tb[i], dm[i], Ta[i], Tb[i])
(* the sums cover all rows but the last *)
Next == /\ Len(ts) < MaxRows
        /\ \E f \in Flows, a, b \in Temps, t \in Dts :
             /\ ts' = Append(ts, ts[Len(ts)] + t) /\ dm' = Append(dm, f) /\ Ta' = Append(Ta, Mega(a)) /\ Tb' = Append(Tb, Mega(b))
        /\ LET i == Len(ts) - 1 IN /\ sum' = sum + Inc(Q(i), ts[i + 1] - ts[i])
                                   /\ psum' = psum + Inc(Max2(Q(i), 0), ts[i + 1] - ts[i])
Spec == Init /\ [][Next]_vars
Rate == [i \in 1..Len(ts) |-> Q(i)]
A == Acc(Rate, Steps(ts), Len(ts))
P == Acc(Positive(Rate), Steps(ts), Len(ts))
Telescopes == Len(ts) > 2 => (A[Len(ts) - 2] = sum /\ P[Len(ts) - 2] = psum)
Monotone == \A i \in 1..(Len(ts) - 1) : P[i] <= P[i + 1]
Above == \A i \in 1..Len(ts) : P[i] >= A[i] /\ P[i] >= 0
Sign == \A i \in 1..Len(ts) : /\ (Ta[i] = Tb[i] \/ dm[i] = 0 => Q(i) = 0)
                              /\ Abs(HeatFlow(Tb[i] - Ta[i], dm[i], Ta[i], Tb[i]) + Q(i)) <= 1
                              /\ Abs(HeatFlow(Ta[i] - Tb[i], -dm[i], Ta[i], Tb[i]) + Q(i)) <= 1
Water == \A T \in 0..110 : Rho(Mega(T)) \in 95000..100000 /\ Cp(Mega(T)) \in 41790..42300 /\ (T > 4 => Rho(Mega(T)) <= Rho(Mega(T - 1)))
=============================================================================
