---------------------------- MODULE BloomsTrace ----------------------------
EXTENDS Blooms, TraceBase
FSt0 == F0
FSteps(s, a, o) == IF ~FAllowed(s, a) THEN {} ELSE IF FOk(s, a, o) THEN {FStep(s, a)} ELSE {}
FExpected(s, a) == Expect(s, a)
=============================================================================
