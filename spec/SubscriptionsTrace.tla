-------------------------- MODULE SubscriptionsTrace --------------------------
EXTENDS Subscriptions, TraceBase
Fits(e, o) == \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]
SSteps(s, a, o) == IF ~SAllowed(s, a) THEN {} ELSE LET r == SRes(s, a) IN IF Fits(r[2], o) THEN {r[1]} ELSE {}
SExpected(s, a) == IF ~SAllowed(s, a) THEN "not allowed" ELSE SRes(s, a)[2]
=============================================================================
