---- MODULE ValuesTrace ----
EXTENDS Values, TraceBase
PureSt0 == [x |-> 0]
PureSteps(s, a, o) == IF Agrees(a, o) THEN {s} ELSE {}
PureExpected(s, a) == EvalV(a)
====
