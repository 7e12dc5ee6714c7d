---- MODULE TargetsTrace ----
EXTENDS Targets, TraceBase
PureSt0 == [x |-> 0]
PureSteps(s, a, o) == IF AgreesT(a, o) THEN {s} ELSE {}
PureExpected(s, a) == EvalT(a)
====
