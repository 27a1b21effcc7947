------------------------------ MODULE TraceCHP -----------------------------
(* CHP plants of the real code judged with CHP and the documented start-up,   *)
(* shutdown and part load curves (tables of the trace's first record).        *)
EXTENDS Mon
P == INSTANCE CHP
StX == [cv |-> <<>>]
F == 1048576      (* curve value 1 *)
Q == 16384        (* modulation 1, power / electric power 1 *)
Tol == 48
(* table at 1 s spacing, d in 1/8 s *)
At(tab, d) == LET k == d \div 8  r == d % 8 IN
              IF k + 2 > Len(tab) THEN tab[Len(tab)] ELSE (tab[k + 1] * (8 - r) + tab[k + 2] * r) \div 8
(* part load tables at 1/64 spacing *)
Load(tab, m) == LET k == m \div 256  r == m % 256 IN
                IF k + 2 > Len(tab) THEN tab[Len(tab)] ELSE (tab[k + 1] * (256 - r) + tab[k + 2] * r) \div 256
Off == 10486
On == 1047527
(* second t >= 1 at which the start-up curve is nearest to f *)
RECURSIVE Find(_, _, _, _)
Find(tab, f, a, b) == IF b - a <= 1 THEN a ELSE LET c == (a + b) \div 2 IN IF tab[c + 1] <= f THEN Find(tab, f, c, b) ELSE Find(tab, f, a, c)
Inverse(cv, f) == LET t == Find(cv.th, f, 1, cv.full) IN IF f - cv.th[t + 1] <= cv.th[t + 2] - f THEN t ELSE t + 1
Begin(st, r) ==
  [cv |-> st.cv, c |-> r.cfg, p |-> P!Start(r.cfg, r.cfg.on = 1, r.cfg.start), rem |-> 0, shf |-> 0, lastq |-> 0,
   fth |-> IF r.cfg.on = 1 THEN F ELSE 0, fel |-> IF r.cfg.on = 1 THEN F ELSE 0, fgas |-> IF r.cfg.on = 1 THEN F ELSE 0, u |-> r.cfg.start, hot |-> r.hot = 1, emrg |-> r.emrg = 1]
JudgeStep(st, r) ==
  LET c == st.c
      p1 == P!Step(c, st.p, st.u, st.hot, st.emrg, r.dt)
      newer == p1.su > p1.sd
      (* remaining heat shortens the start-up *)
      warm == newer /\ st.shf > Off
      rem1 == IF warm THEN 8 * (Inverse(st.cv, st.shf) - 1) ELSE st.rem
      dur == (p1.t - p1.su) * c.tick8 + rem1
      run == newer /\ p1.starting
      full == run /\ At(st.cv.th, dur) > On
      fth == IF full THEN F ELSE IF run THEN At(st.cv.th, dur) ELSE st.fth
      fel == IF full THEN F ELSE IF run THEN At(st.cv.el, dur) ELSE st.fel
      fgas == IF full THEN F ELSE IF run THEN At(st.cv.gas, dur) ELSE st.fgas
      sh == At(st.cv.sh, (p1.t - p1.sd) * c.tick8)
      cool == IF newer THEN p1.cooling /\ ~warm ELSE p1.cooling /\ sh >= Off
      shf == IF newer THEN (IF warm THEN 0 ELSE st.shf) ELSE IF cool THEN sh ELSE IF p1.cooling THEN 0 ELSE st.shf
      rem == IF full \/ (~newer /\ ~cool) THEN 0 ELSE rem1
      on == p1.m # 0
      pel == IF on THEN (p1.m * (fel \div 64)) \div Q ELSE 0
      gas == IF on THEN (Load(c.gsq, p1.m) * (fgas \div 64)) \div Q ELSE 0
      q == IF cool THEN (st.lastq * (shf \div 64)) \div Q ELSE IF on THEN (Load(c.thq, p1.m) * (fth \div 64)) \div Q ELSE 0
  IN [st |-> [st EXCEPT !.p = [p1 EXCEPT !.starting = @ /\ ~full, !.cooling = cool], !.rem = rem, !.shf = shf, !.fth = fth, !.fel = fel, !.fgas = fgas,
                        !.lastq = IF cool THEN @ ELSE q, !.u = r.u, !.hot = r.hot = 1, !.emrg = r.emrg = 1],
      bad |-> Bit(Near(r.m, p1.m, 4), "state") \cup Bit(Near(r.pel, pel, Tol), "electric-power") \cup Bit(Near(r.gas, gas, 2 * Tol), "gas-power")
              \cup Bit(Near(r.q, q, 2 * Tol), "heat")
              \cup Bit(r.m # 0 \/ (r.pel = 0 /\ r.gas = 0), "power-when-off")]
JudgeX(st, r) ==
  CASE r.ev = "curves" -> [st |-> [cv |-> r], bad |-> {}]
    [] r.ev = "begin" -> [st |-> Begin(st, r), bad |-> {}]
    [] r.ev = "step" -> JudgeStep(st, r)
    [] r.ev = "end" -> [st |-> [cv |-> st.cv], bad |-> Bit(r.rows >= 8, "too-few-rows") \cup Bit(r.tick = 1, "step-sizes")]
=============================================================================
