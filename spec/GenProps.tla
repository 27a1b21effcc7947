------------------------------ MODULE GenProps -----------------------------
(* Stimuli for property functions: temperatures (1/8 K), conductances (mW/K), *)
(* velocities, lengths.                                                       *)
EXTENDS Emit, Integers
VARIABLES pr, done
R(S) == RandomElement(S)
New(x) == [T |-> [i \in 1..8 |-> IF R(1..3) = 1 THEN 80 * R(-2..11) ELSE R(0..1180) - 220],
           g |-> [i \in 1..R(1..4) |-> R({R(900..2000), R(2000..90000), R(90000..900000)})],
           v |-> R(1..3000), L |-> R(20..9000), T0 |-> R(0..400) - 80, dT |-> R(1..400), p |-> R(600..9000)]
Init == pr = <<>> /\ done = FALSE
Next == \/ pr = <<>> /\ pr' = <<New(0)>> /\ UNCHANGED done
        \/ pr # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED pr
Spec == Init /\ [][Next]_<<pr, done>>
Out == done => Emit(pr[1])
=============================================================================
