---- MODULE RpcTextsTrace ----
EXTENDS RpcTexts, TraceBase
PureSt0 == [x |-> 0]
PureSteps(s, a, o) == IF o = Eval(a) THEN {s} ELSE {}
PureExpected(s, a) == Eval(a)
====
