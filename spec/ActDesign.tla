------------------------------ MODULE ActDesign -----------------------------
(* Every history of demanded values keeps the actuator inside its limits, the *)
(* demand is met exactly inside them, and openings are complementary.         *)
EXTENDS Actuator
CONSTANTS D
VARIABLES a, val, dem
DSet == {-3000, -513, -512, -1, 0, 1, 99, 100, 101, 255, 256, 257, 899, 900, 901, 1023, 1024, 1025, 2000}
Init == /\ a \in [kind : {"ppump", "pump", "valve", "heat"}, mode : {"direct", "part"},
                  lo : {-512, 0, 100}, hi : {256, 1024, 900}, maxi : {512, 1024, 300}]
        /\ a.kind = "valve" => a.lo >= 0 /\ a.hi <= 1024
        /\ dem = a.lo /\ val = Value(a, dem)
Next == dem' \in D /\ val' = Value(a, dem') /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, val, dem>>
Within == a.lo * 1024 <= val /\ val <= a.hi * 1024
Met == (Scaled(a, dem) >= a.lo * 1024 /\ Scaled(a, dem) <= a.hi * 1024) => val = Scaled(a, dem)
Monotone == \A x \in D : x >= dem => Value(a, x) >= val
Compl == a.kind = "valve" => LET o == Openings(a, dem) IN
            o[1] + o[2] = 1048576 /\ o[1] \in 0..1048576 /\ o[2] >= 0
=============================================================================
