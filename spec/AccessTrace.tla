----------------------------- MODULE AccessTrace -----------------------------
EXTENDS Access, TraceBase
Fits(e, o) == \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]
ASteps(s, a, o) == IF ~Allowed(s, a) THEN {} ELSE LET r == Res(s, a) IN IF Fits(r[2], o) THEN {r[1]} ELSE {}
AExpected(s, a) == IF ~Allowed(s, a) THEN "not allowed" ELSE Res(s, a)[2]
=============================================================================
