---------------------------- MODULE TraceStepCtl ----------------------------
(* C02: the step sizes tried and accepted by the real solver, judged with the *)
(* rules of StepCtl. Units: ratios and errors 1e-6, times 1e-6 s.             *)
EXTENDS Mon
S == INSTANCE StepCtl WITH HMin <- 1, HMax <- 1, H0 <- 1, MaxF <- 1, MinF <- 1, Rec <- 1,
       Safe <- 1, TEnd <- 1, h <- 0, ssf <- 0, t <- 0, fails <- 0, forced <- FALSE,
       last <- 0

StX == [ph |-> "none"]
RT(x) == 20 + x \div 20000    \* tolerance of ratios

(* ph: "start" next evaluation starts the first try of a step                *)
(*     "s1"    first stage of a try was evaluated                            *)
(*     "s2"    both stages were evaluated; a row means accepted              *)
Begin(r) == [ph |-> "start", n |-> 0, cfg |-> r, ssf |-> 0, hid |-> 0, e |-> 0, z |-> 0, sug |-> 0,
             cour |-> 0, atmin |-> 0, acc |-> FALSE, t |-> 0, h |-> 0, taint |-> FALSE, first |-> TRUE,
             unst |-> FALSE, forced |-> FALSE, n2 |-> 0]

(* a try of a step with the size the rules demand after the previous try      *)
Stage1(st, r) ==
  [st EXCEPT !.ph = "s1", !.hid = r.hid, !.h = r.h, !.atmin = r.atmin, !.cour = r.cour, !.n = r.n,
             !.first = FALSE, !.forced = (r.below = 1)]

JudgeEval(st, r) ==
  LET c == st.cfg
      ad == c.adaptive = 1
      range == Bit(r.above = 0, "above-max") \cup Bit(r.below = 0 \/ st.unst \/ st.forced, "below-min")
      newstep == st.ph = "start"
      ssf1 == IF newstep THEN st.ssf + 1 ELSE st.ssf
      (* growth that follows acceptance *)
      g == IF st.z = 1 THEN c.maxf ELSE S!Grow(st.sug, c.maxf, st.ssf, c.rec)
      glow == IF st.z = 1 THEN 1050000 ELSE S!Grow(st.sug, 1050000, st.ssf, c.rec)
      wasfloor == st.e >= 1000000 /\ st.z = 0
      growth ==
        IF st.first THEN Bit(Near(r.h, c.h0, 1), "first-step")
        ELSE IF wasfloor THEN Bit(Near(r.r, 1000000, 2), "floor-step")
        ELSE IF r.atmax = 1 THEN Bit(r.r <= g + RT(g), "growth")
        ELSE IF st.taint THEN Bit(r.r <= g + RT(g) /\ r.r >= glow - RT(glow), "growth-after-instability")
        ELSE Bit(Near(r.r, g, RT(g)), "growth")
      sh == S!Shrink(st.sug, c.minf)
  IN IF ~ad
     THEN \* constant steps: two evaluations per step, all with the same size
          CASE newstep -> [st |-> [Stage1(st, r) EXCEPT !.ph = "s1"],
                           bad |-> Bit(Near(r.h, c.h0, 1) /\ (st.first \/ r.r = 1000000), "constant-step")]
            [] st.ph = "s1" -> [st |-> [st EXCEPT !.ph = "s2"],
                                bad |-> Bit(r.hid = st.hid /\ r.n = st.n, "constant-step")]
            [] OTHER -> [st |-> st, bad |-> {"constant-step-repeated"}]
     ELSE CASE newstep ->
            [st |-> [Stage1(st, r) EXCEPT !.ssf = ssf1, !.unst = FALSE],
             bad |-> growth \cup range]
       [] st.ph = "s1" /\ r.hid = st.hid /\ r.full = 1 /\ r.n = st.n ->
            [st |-> [st EXCEPT !.ph = "s2", !.e = r.e, !.z = IF "z" \in DOMAIN r THEN r.z ELSE 0, !.sug = r.sug],
             bad |-> Bit("z" \in DOMAIN r, "stages")]
       [] st.ph = "s1" ->   \* the first stage was found unstable
            [st |-> [Stage1(st, r) EXCEPT !.ssf = 0, !.taint = TRUE, !.unst = TRUE],
             bad |-> Bit(r.r <= 900002 /\ r.n = st.n, "unstable-retry")
                     \cup Bit(st.cour >= 400000, "unstable-without-cause")]
       [] st.ph = "s2" ->   \* rejected for its error
            [st |-> Stage1(st, r),
             bad |-> range \cup Bit(r.n = st.n, "order")
               \cup Bit(st.e >= 1000000 - 50 /\ st.z = 0, "rejected-good-try")
               \cup Bit(st.atmin = 0, "rejected-at-minimum")
               \cup (IF r.atmin = 1 THEN Bit(r.r >= sh - RT(sh) \/ st.forced, "shrink")
                                    ELSE Bit(Near(r.r, sh, RT(sh)), "shrink"))]
       [] OTHER -> [st |-> st, bad |-> {"order"}]

JudgeRow(st, r) ==
  IF r.n = 0 THEN [st |-> [st EXCEPT !.t = r.t], bad |-> Bit(r.t = 0, "time-starts-at-zero")]
  ELSE [st |-> [st EXCEPT !.ph = "start", !.t = r.t, !.n = r.n],
        bad |-> Bit(st.ph = "s2", "row-without-try")
          \cup Bit(r.n = st.n, "order")
          \cup Bit(st.cfg.adaptive = 0 \/ st.atmin = 1 \/ st.e < 1000000 + 50, "accepted-bad-try")
          \cup Bit(st.cour <= 1020000, "accepted-unstable")
          \cup Bit(Near(r.h, st.h, 1), "time-advance")
          \cup Bit(Near(r.t, st.t + st.h, 2), "time-sum")]

JudgeEnd(st, r) ==
  [st |-> StX, bad |-> Bit(r.rows = st.n + 1, "rows")
     \cup Bit(r.tlast >= r.tf - 2 /\ r.tprev < r.tf + 2, "ends-at-timeframe")]

JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> Begin(r), bad |-> {}]
    [] r.ev = "eval"  -> JudgeEval(st, r)
    [] r.ev = "row"   -> JudgeRow(st, r)
    [] r.ev = "end"   -> JudgeEnd(st, r)
=============================================================================
