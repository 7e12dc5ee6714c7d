---------------------------- MODULE ManagersTrace ----------------------------
EXTENDS Managers, TraceBase
LSt0 == M0
LSteps(s, a, o) == IF MAllowed(s, a) /\ MRes(s, a)[2] = o THEN {MRes(s, a)[1]} ELSE {}
LExpected(s, a) == IF MAllowed(s, a) THEN MRes(s, a)[2] ELSE [k |-> "not allowed"]
=============================================================================
