------------------------------ MODULE StepCtl ------------------------------
(* Adaptive step size control of the Heun solver.                            *)
(* Factors are fixed point numbers in 1e-6 ("ppm"); step sizes in the model  *)
(* are integers (model units), in traces they are judged as ratios.          *)
EXTENDS Num

One == 1000000

(* --- the control rules, shared by the design model and the trace monitor - *)
(* damping of the growth during the first rec steps after an instability     *)
Damp(f, ssf, rec) == IF ssf >= rec THEN f
                     ELSE DivR(DivR(f * ssf, rec) * ssf, rec)
(* growth after an accepted step with 0 < error < 1; sug is the factor the   *)
(* error estimate suggests, maxf the configured maximum factor               *)
Grow(sug, maxf, ssf, rec) == Max2(One, Damp(Min2(maxf, sug), ssf, rec))
(* reduction after a try with error >= 1                                     *)
Shrink(sug, minf) == Max2(minf, sug)

(* --- design model -------------------------------------------------------- *)
CONSTANTS HMin, HMax, H0, MaxF, MinF, Rec, Safe, TEnd
VARIABLES h,      \* size of the step tried next
          ssf,    \* steps since the last instability
          t,      \* simulated time
          fails,  \* failed tries of the current step
          forced, \* an instability forced the step below the minimum
          last    \* what happened last: [k: kind, h: tried size, ok: accepted]
vars == <<h, ssf, t, fails, forced, last>>

MulF(x, f) == Max2(1, (x * f) \div One)

Init == /\ h = Clip(H0, HMin, HMax)
        /\ ssf = 1 /\ t = 0 /\ fails = 0 /\ forced = FALSE
        /\ last = [k |-> "init", h |-> 0, ok |-> FALSE]

Accept(hn, kind) ==
    /\ t' = t + h /\ h' = hn /\ ssf' = Min2(ssf + 1, Rec + 1) /\ fails' = 0
    /\ last' = [k |-> kind, h |-> h, ok |-> TRUE]
(* error zero: accept, grow by the full factor *)
TryZero == Accept(Min2(HMax, MulF(h, MaxF)), "zero")
(* error below one *)
TryGood == \E sug \in {900000, 1300000, 5000000} :
             Accept(Min2(HMax, MulF(h, Grow(sug, MaxF, ssf, Rec))), "good")
(* error too big *)
TryBad == IF h = HMin THEN Accept(h, "floor")
          ELSE \E sug \in {100000, 500000, 890000} :
                 /\ h' = Max2(HMin, MulF(h, Shrink(sug, MinF)))
                 /\ fails' = fails + 1
                 /\ last' = [k |-> "bad", h |-> h, ok |-> FALSE]
                 /\ UNCHANGED <<t, ssf>>
(* step exceeds the stability limit lim < h of the current state             *)
TryUnstable == \E lim \in 1..(h - 1) :
                 /\ h' = Max2(1, (lim * 9) \div 10)
                 /\ ssf' = 0 /\ fails' = fails + 1
                 /\ last' = [k |-> "unstable", h |-> h, ok |-> FALSE]
                 /\ UNCHANGED t
Next == /\ t < TEnd
        /\ (TryZero \/ TryGood \/ TryBad \/ TryUnstable)
        /\ forced' = (h' < HMin /\ (forced \/ last'.k = "unstable"))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == fails <= 8
TypeOK == h >= 1 /\ ssf >= 0 /\ fails >= 0
(* never above the maximum; below the minimum only after an instability      *)
StepsInRange == h <= HMax /\ (h >= HMin \/ forced)
(* a rejected try does not advance time and is followed by a smaller try     *)
(* (a step an instability forced below the minimum returns to the minimum)   *)
RejectShrinks == [][~last'.ok => (t' = t /\ (h' < h \/ h' = 1 \/ (h < HMin /\ h' = HMin)))]_vars
(* growth is bounded by the maximum factor                                    *)
GrowBounded == [][h' <= Max2(HMin, Max2(h, MulF(h, MaxF)))]_vars
TimeIsSum == [][t' = t + (IF last'.ok THEN last'.h ELSE 0)]_vars
=============================================================================
