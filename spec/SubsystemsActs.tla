--------------------------- MODULE SubsystemsActs ---------------------------
(* All lists of N actions of the callers of one subsystem: submissions in four forms, opening of gates, readiness,       *)
(* request to stop. The code carries them out, and its events are checked against Subsystems.tla.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MAXC
VARIABLES h
Subs == SelectSeq(h, LAMBDA a : a.op = "submit")
Has(o) == \E j \in 1..Len(h) : h[j].op = o
Gated == {i \in 1..Len(Subs) : Subs[i].form \in {"call_async_mut", "call_async"}}
Opened == {h[j].i : j \in {k \in 1..Len(h) : h[k].op = "open"}}
Acts ==
  (IF Len(Subs) < MAXC THEN {[op |-> "submit", i |-> Len(Subs) + 1, form |-> f, work |-> w] : f \in {"call_async_mut", "call_async", "submit_mut", "call"}, w \in {0}} ELSE {})
  \cup {[op |-> "open", i |-> i] : i \in Gated \ Opened}
  \cup (IF Has("ready") THEN {} ELSE {[op |-> "ready"]}) \cup (IF Has("stop") THEN {} ELSE {[op |-> "stop"]})
Init == h = <<[op |-> "start"]>>
Next == Len(h) < N /\ \E a \in Acts : h' = Append(h, a) /\ (Len(h') = N => PrintT(ToJson([s |-> 0, a |-> h', o |-> 0, t |-> 0])))
Spec == Init /\ [][Next]_h
=============================================================================
