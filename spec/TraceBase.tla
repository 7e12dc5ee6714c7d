---------------------------- MODULE TraceBase ----------------------------
(* Trace validation: a set of recorded traces, each a sequence of [a |-> action, o |-> observation] of the real code,   *)
(* is checked step by step against a specification given by its initial state and the operator                          *)
(*   Steps(st, a, o) = the set of states the specification may be in after action a was observed to answer o.           *)
(* A step the specification does not allow is printed together with what was expected.                                  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT TraceInit0, TraceSteps(_, _, _), TraceExpected(_, _)
VARIABLES tid, l, st

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

TInit == tid \in 1..Len(Traces) /\ l = 0 /\ st = TraceInit0
TNext ==
  /\ l < Len(Traces[tid])
  /\ LET e == Traces[tid][l + 1]
         S == TraceSteps(st, e.a, e.o)
     IN IF S # {}
        THEN /\ st' \in S /\ l' = l + 1 /\ UNCHANGED tid
             /\ IF l + 1 = Len(Traces[tid]) THEN PrintT(<<"DONE", tid, l + 1>>) ELSE TRUE
        ELSE /\ PrintT(<<"MISMATCH", tid, l + 1, ToJson(TraceExpected(st, e.a))>>)
             /\ FALSE
TraceSpec == TInit /\ [][TNext]_<<tid, l, st>>
==========================================================================
