---- MODULE EmissionTrace ----
EXTENDS Emission, TraceBase
PureSt0 == [x |-> 0]
PureSteps(s, a, o) == IF AgreesE(a, o) THEN {s} ELSE {}
PureExpected(s, a) == EvalE(a)
====
