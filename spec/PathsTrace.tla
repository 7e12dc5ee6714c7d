------------------------------ MODULE PathsTrace ------------------------------
EXTENDS Paths, TraceBase
PureSt0 == 0
Fits(e, o) == \A f \in DOMAIN e : f \in DOMAIN o /\ e[f] = o[f]
PureSteps(s, a, o) == IF Fits(PathFn(a), o) THEN {s} ELSE {}
PureExpected(s, a) == PathFn(a)
=============================================================================
