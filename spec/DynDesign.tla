------------------------------ MODULE DynDesign ----------------------------
(* Design check of DynBC: for all step sequences and small series the value   *)
(* is the interpolated one for short steps and always within the samples.     *)
EXTENDS DynBC, TLC
CONSTANTS Ds, Dts, Vals, Len0, Horizon
VARIABLES D, ser, pos, last, val, ex
S(i) == Smp(ser, i)
Init == /\ D \in Ds /\ ser \in [1..Len0 -> Vals] /\ pos = 0 /\ last = 0 /\ ex \in BOOLEAN
        /\ val = ser[1] * Q
Next == \E dt \in Dts : /\ pos + dt <= Horizon
                        /\ last' = pos /\ pos' = pos + dt
                        /\ val' \in Admissible(ser, D, pos, dt, ex)
                        /\ UNCHANGED <<D, ser, ex>>
Spec == Init /\ [][Next]_<<D, ser, pos, last, val, ex>>
Passed == (last \div D) .. (IF pos % D = 0 THEN pos \div D ELSE pos \div D + 1)
InRange == /\ \E i \in Passed : val >= S(i) * Q - 2
           /\ \E i \in Passed : val <= S(i) * Q + 2
Linear == pos - last <= D /\ pos > 0 => Abs(val * D - Q * (S(pos \div D) * (D - (pos % D)) + S(pos \div D + 1) * (pos % D))) <= 2 * D
=============================================================================
