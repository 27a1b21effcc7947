----------------------------- MODULE TraceProps ----------------------------
(* Values of the real property functions judged with Props. A record carries  *)
(* the values of all variants of a function at one temperature.              *)
EXTENDS Mon, Props
StX == 0
Same(v) == \A i \in DOMAIN v : Near(v[i], v[1], 1)
Value(r) == UNION {Bit(\A i \in DOMAIN r.v : Agrees(r.q, r.T, r.v[i]), "reference-" \o r.q), Bit(Same(r.fine), "variants-" \o r.q), Bit(r.kept, "argument-changed-" \o r.q)}
JudgeX(st, r) ==
  CASE r.ev = "value" -> [st |-> st, bad |-> Value(r)]
    [] r.ev = "circuit" -> [st |-> st, bad |-> Bit(\A i \in DOMAIN r.s : LET e == InSeries(r.g) IN Near(r.s[i], e, 1 + e \div 300), "series")
                                         \cup Bit(\A i \in DOMAIN r.p : LET e == SumSeq(r.g) IN Near(r.p[i], e, 1), "parallel")]
    [] r.ev = "numbers" -> [st |-> st, bad |-> Bit(\A i \in DOMAIN r.re : Near(r.re[i], LnRe(r.v, r.L, r.ny), 60), "Reynolds")
                                         \cup Bit(\A i \in DOMAIN r.ra : Near(r.ra[i], LnRay(r.dT, r.T0, r.L, r.any, r.pr), 120), "Rayleigh")]
    [] r.ev = "end" -> [st |-> st, bad |-> {}]
=============================================================================
