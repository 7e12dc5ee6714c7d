----------------------------- MODULE SpendsTrace -----------------------------
EXTENDS Spends, TraceBase
PSteps(s, a, o) == LET r == SRes(s, a) IN IF \A f \in DOMAIN r[2] : o[f] = r[2][f] THEN {r[1]} ELSE {}
PExpected(s, a) == SRes(s, a)[2]
=============================================================================
