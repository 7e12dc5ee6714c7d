-------------------------- MODULE BroadcastsTrace --------------------------
EXTENDS Broadcasts, TraceBase
BSteps(s, a, o) == IF ~BAllowed(s, a) THEN {} ELSE {r[1] : r \in {r \in BRes(s, a) : r[2] = o}}
BExpected(s, a) == IF ~BAllowed(s, a) THEN {"not allowed"} ELSE {r[2] : r \in BRes(s, a)}
=============================================================================
