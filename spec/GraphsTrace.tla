---------------------------- MODULE GraphsTrace ----------------------------
EXTENDS Graphs, TraceBase
PureSt0 == 0
PureSteps(s, a, o) == IF o.k = "list" /\ Complete(a.g, IF a.op = "one" THEN <<a.roots[1]>> ELSE a.roots, o.v) THEN {s} ELSE {}
PureExpected(s, a) == [reachable |-> Reach(a.g, IF a.op = "one" THEN <<a.roots[1]>> ELSE a.roots)]
=============================================================================
