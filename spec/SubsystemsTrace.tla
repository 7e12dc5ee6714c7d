-------------------------- MODULE SubsystemsTrace --------------------------
EXTENDS Subsystems, TraceBase
LSt0 == [s |-> Y0, open |-> {}, gone |-> {}]
(* what an action changes before any event; a batch is a list of actions *)
RECURSIVE Act(_, _)
RECURSIVE Acts(_, _)
Act(x, a) ==
  CASE a.op = "start" -> [x EXCEPT !.s.ph = "up"]
    [] a.op = "ready" -> [x EXCEPT !.s.ready = TRUE]
    [] a.op = "submit" -> [x EXCEPT !.s = Sent(Submit(@, a.i, a.form, a.work), a.i)]
    [] a.op = "open" -> [x EXCEPT !.open = @ \cup {a.i}]
    [] a.op = "forget" -> [x EXCEPT !.s.calls[a.i].waits = FALSE]
    [] a.op = "stop" -> [x EXCEPT !.s = Event(@, <<"ask">>)]
    [] a.op = "batch" -> Acts(x, a.acts)
Acts(x, as) == IF as = <<>> THEN x ELSE Acts(Act(x, Head(as)), Tail(as))
LSteps(x, a, o) ==
  IF o.k # "events" THEN {}
  ELSE IF a.op = "run" THEN      \* a free run: all events of it; in the end everything has come to rest
    LET t == Events([Y0 EXCEPT !.ph = "up", !.ready = TRUE], o.ev) IN
    IF t.ph # "bad" /\ Rest(t, DOMAIN t.calls) /\ (a.stop <=> t.ph = "over") /\ (~a.stop => Waiting(t) = {}) THEN {x} ELSE {}
  ELSE LET y == Act(x, a)  t == Events(y.s, o.ev) IN
    IF t.ph # "bad" /\ Rest(t, y.open) THEN {[y EXCEPT !.s = t]} ELSE {}
LExpected(x, a) == IF a.op = "run" THEN [k |-> "free run"] ELSE [state |-> Act(x, a)]
=============================================================================
