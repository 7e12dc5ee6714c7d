---------------------------- MODULE StorageTrace ----------------------------
EXTENDS Storage, TraceBase
CONSTANT NMAPS
StSt0 == Empty(NMAPS)
DownSt0 == [StSt0 EXCEPT !.up = FALSE]
StSteps(s, a, o) == IF ~Allowed(s, a) THEN {} ELSE {r[1] : r \in {r \in Res(s, a) : r[2] = o}}
StExpected(s, a) == IF ~Allowed(s, a) THEN {"not allowed"} ELSE {r[2] : r \in Res(s, a)}
=============================================================================
