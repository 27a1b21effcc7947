------------------------------ MODULE GenStep ------------------------------
(* Stimuli for the step control: a solver configuration and, for every try,   *)
(* the class of the error the scripted part produces (scripted runs), or a    *)
(* plant and the course of its pump flow (plant runs).                        *)
EXTENDS Emit, Integers
CONSTANTS Len0
VARIABLES cfg, script, done

MinF == {200, 500}          \* 1/1000
MaxF == {1100, 1300, 2000, 5000}
Rec == {1, 3, 50}
Safe == {700, 900}
HMin == {"tiny", "low", "mid"}
HMax == {"huge", "two", "sub"}
Err == {"zero", "nil", "none", "small", "half", "near", "over", "bad", "awful"}
Plant == {"chain", "valve", "tes", "still", "two"}
Flow == {0, 5, 40, 250}     \* 1/1000 kg/s

Init == /\ cfg \in [minf : MinF, maxf : MaxF, rec : Rec, safe : Safe,
                    hmin : HMin, hmax : HMax, kind : {"script", "plant"},
                    plant : Plant, adaptive : {TRUE, TRUE, FALSE}, calm : BOOLEAN,
                    rtol : {2, 10, 50}]     \* 1/10000
        /\ script = <<>> /\ done = FALSE
Add == /\ Len(script) < Len0
       /\ IF cfg.kind = "script" THEN \E e \in Err : script' = Append(script, e)
          ELSE \E q \in Flow : script' = Append(script, q)
       /\ UNCHANGED <<cfg, done>>
Fin == Len(script) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, script>>
Next == Add \/ Fin
Spec == Init /\ [][Next]_<<cfg, script, done>>
Out == done => Emit([cfg |-> cfg, script |-> script])
=============================================================================
