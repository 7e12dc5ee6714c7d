----------------------------- MODULE HashingTrace -----------------------------
EXTENDS Hashing, TraceBase
HSt0 == H0
HSteps(s, a, o) == IF ~HashAllowed(s, a) THEN {} ELSE LET r == HashRes(s, a) IN IF o = r[2] THEN {r[1]} ELSE {}
HExpected(s, a) == HashRes(s, a)[2]
=============================================================================
