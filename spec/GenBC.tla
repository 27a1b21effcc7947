------------------------------- MODULE GenBC -------------------------------
(* Stimuli: sampling interval, step sizes (rejections), targets with series.  *)
EXTENDS Emit, Integers
CONSTANTS Len0, NT
VARIABLES tgt, script, d, done
R(S) == RandomElement(S)
Kinds == {"port", "portlate", "ppump", "pump", "pvalve", "sp", "amb"}
Pat(k, n) == [i \in 1..n |-> IF k = "pvalve" THEN R(0..1024) ELSE IF k \in {"ppump", "pump"} THEN R(-400..800)
                             ELSE IF k = "sp" THEN R(160..320) ELSE R(1..800)]
New(i) == LET k == R(Kinds) IN [kind |-> k, pat |-> Pat(k, R({5, 7, 11, 13})), df |-> R({0, 0, 1})]
Rec(x) == [D |-> R({4, 8, 16, 32, 64, 128, 3, 5, 6, 7, 12, 20, 24, 40, 48, 80, 96, 100}), ts |-> R({-6, -3, 0, 2}), long |-> R({0, 1})]
Init == tgt = <<>> /\ script = <<>> /\ done = FALSE /\ d = [D |-> 0]
Next == \/ /\ d.D = 0 /\ d' = Rec(0) /\ UNCHANGED <<tgt, script, done>>
        \/ /\ d.D # 0 /\ Len(tgt) < NT /\ tgt' = Append(tgt, New(Len(tgt))) /\ UNCHANGED <<script, d, done>>
        \/ /\ Len(tgt) = NT /\ Len(script) < Len0
           /\ script' = Append(script, IF d.long = 1 THEN R({0, 0, 0, 0, 1, 2, 3}) ELSE R({0, 1, 1, 2, 2, 3, 3}))
           /\ UNCHANGED <<tgt, d, done>>
        \/ /\ Len(script) = Len0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<tgt, script, d>>
Spec == Init /\ [][Next]_<<tgt, script, d, done>>
Out == done => Emit([tgt |-> tgt, script |-> script, D |-> d.D, ts |-> d.ts])
=============================================================================
