---------------------------- MODULE HoldersTrace ----------------------------
EXTENDS Holders, TraceBase
Rec(o) == IF o.k = "panic" THEN [k |-> "panic"] ELSE o
HSt0 == H0
HSteps(s, a, o) == IF ~HAllowed(s, a) THEN {} ELSE {r[1] : r \in {r \in HRes(s, a) : r[2] = Rec(o)}}
HExpected(s, a) == {r[2] : r \in HRes(s, a)}
=============================================================================
