---- MODULE DecimalsTrace ----
EXTENDS Decimals, TraceBase
PureSt0 == [x |-> 0]
PureSteps(s, a, o) == LET e == Eval(a) IN
  IF o.k = e.k /\ \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f] THEN {s} ELSE {}
PureExpected(s, a) == Eval(a)
====
