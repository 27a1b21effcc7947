------------------------------ MODULE TraceHeun -----------------------------
(* C03: every accepted row is the Heun combination of the recorded            *)
(* derivatives of all parts; rejected tries leave no trace; every stage sees  *)
(* the connected parts at the same stage. Unit 1e-6 degC.                     *)
EXTENDS Mon
StX == [ph |-> "none"]
Begin(r) == [ph |-> "start", hid |-> 0, n |-> 0, row |-> <<>>, rowid |-> 0, inc |-> <<>>, inc2 |-> <<>>,
             d |-> <<>>, d1 |-> <<>>, retry |-> FALSE]
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
Prefix(a, b, tol) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol
Lim == 1900000000
VSum(a, b) == [i \in DOMAIN a |-> IF Abs(b[i]) > 900000000 THEN Lim ELSE a[i] + b[i]]
Pred(st) == VSum(st.row, st.inc)
Heun(st) == [i \in DOMAIN st.row |-> IF Abs(st.inc[i]) > 900000000 \/ Abs(st.inc2[i]) > 900000000 THEN Lim
                                     ELSE st.row[i] + (st.inc[i] + st.inc2[i]) \div 2]
Tame(v) == \A i \in DOMAIN v : Abs(v[i]) < Lim
PortsOK(r) == \A i \in DOMAIN r.ports : Abs(r.ports[i][1] - r.ports[i][2]) <= 2
(* derivatives of a repeated try equal those of the first one (the surface    *)
(* temperature used for the loss to ambient is iterated: small tolerance)     *)
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= 2 + Abs(b[i]) \div 100000

First(st, r) ==
  [st |-> [st EXCEPT !.ph = "s1", !.hid = r.hid, !.n = r.n, !.inc = r.inc, !.d = r.d, !.retry = FALSE,
                     !.d1 = IF st.ph = "start" THEN IF r.full = 1 THEN r.d ELSE <<>> ELSE st.d1],
   bad |-> Bit(IF r.full = 1 THEN r.Tid = st.rowid ELSE Prefix(r.T, st.row, 0), "stage1-state")
     \cup Bit(PortsOK(r), "stage1-ports")
     \cup (IF st.ph # "start" /\ st.d1 # <<>> /\ r.full = 1 /\ Len(st.d1) = Len(r.d)
           THEN Bit(st.script \/ Same(r.d, st.d1), "retry-derivative") ELSE {})]

JudgeEval(st, r) ==
  IF st.ph = "s1" /\ r.hid = st.hid /\ r.full = 1 /\ r.n = st.n
  THEN [st |-> [st EXCEPT !.ph = "s2", !.inc2 = r.inc],
        bad |-> Bit(Tame(Pred(st)) => VNear(r.T, Pred(st), 3), "stage2-state")
          \cup Bit(PortsOK(r), "stage2-ports")]
  ELSE First(st, r)

JudgeRow(st, r) ==
  [st |-> [st EXCEPT !.ph = "start", !.row = r.T, !.rowid = r.Tid],
   bad |-> IF r.n = 0 THEN {}
           ELSE IF st.ph # "s2" THEN {"row-without-try"}
           ELSE Bit(Tame(Heun(st)) => VNear(r.T, Heun(st), 3), "heun-row")]

JudgeX(st, r) ==
  CASE r.ev = "begin" -> [st |-> Begin(r) @@ [script |-> r.script = 1], bad |-> {}]
    [] r.ev = "eval"  -> JudgeEval(st, r)
    [] r.ev = "row"   -> JudgeRow(st, r)
    [] OTHER -> [st |-> st, bad |-> {}]
=============================================================================
