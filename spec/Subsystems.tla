----------------------------- MODULE Subsystems -----------------------------
(* What callers of a subsystem can rely on, as a machine over the events they see. Calls are numbered; a modifying call  *)
(* appends itself to the subsystem's list. Events: a call is submitted, begins, ends, its caller is told the result, or  *)
(* that it was lost (dropped by the shutdown) or refused (submitted after the end); the subsystem does a unit of         *)
(* background work, stops, and its manager is over.                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Y0 == [calls |-> <<>>, n |-> 0, work |-> 0, ph |-> "none", ready |-> FALSE]
(* phases: none, up, asked (to stop), stopped, over *)
Bad == [ph |-> "bad"]
Put(f, i, v) == [x \in DOMAIN f \cup {i} |-> IF x = i THEN v ELSE f[x]]
MutForms == {"call_async_mut", "call_mut", "submit_async_mut", "submit_mut"}
GateForms == {"call_async_mut", "call_async", "submit_async_mut", "submit_async"}
CallForms == {"call_async_mut", "call_async", "call_mut", "call", "blocking_mut", "blocking"}
IsMut(f) == f \in MutForms \cup {"blocking_mut"}
Call(form, bef, work) == [mut |-> IsMut(form), gated |-> form \in GateForms, waits |-> form \in CallForms, bef |-> bef, st |-> "sub", n |-> 0,
                          told |-> FALSE, sent |-> FALSE, work |-> IF IsMut(form) THEN work ELSE 0]
Active(s) == {i \in DOMAIN s.calls : s.calls[i].st = "run"}
ActiveMut(s) == {i \in Active(s) : s.calls[i].mut}
Muts(s) == {i \in DOMAIN s.calls : s.calls[i].mut}
Submit(s, i, form, work) == [s EXCEPT !.calls = Put(@, i, Call(form, {j \in Muts(s) : s.calls[j].sent}, work))]
Sent(s, i) == [s EXCEPT !.calls[i].sent = TRUE]
(* --- events: the next state, or Bad --- *)
CanBegin(s, i) ==
  LET c == s.calls[i] IN
  /\ c.st = "sub" /\ s.ready /\ s.ph \in {"up", "asked"}
  /\ ActiveMut(s) = {} /\ (c.mut => Active(s) = {})
  /\ \A j \in c.bef : s.calls[j].st = "ran"
Begin(s, i, n) ==
  LET m == IF s.calls[i].mut THEN s.n + 1 ELSE s.n IN
  IF CanBegin(s, i) /\ n = m THEN [s EXCEPT !.n = m, !.calls[i].st = "run", !.calls[i].n = m, !.work = @ + s.calls[i].work] ELSE Bad
End(s, i, n) == IF s.calls[i].st = "run" /\ n = s.n THEN [s EXCEPT !.calls[i].st = "ran"] ELSE Bad
Got(s, i, j, n) ==
  LET c == s.calls[i] IN IF c.st = "ran" /\ c.waits /\ ~c.told /\ j = i /\ n = c.n THEN [s EXCEPT !.calls[i].told = TRUE] ELSE Bad
Lost(s, i) == IF s.calls[i].st = "sub" /\ s.calls[i].waits /\ s.ph \in {"asked", "stopped", "over"} THEN [s EXCEPT !.calls[i].st = "dead", !.calls[i].told = TRUE] ELSE Bad
Closed(s, i) == IF s.calls[i].st = "sub" /\ s.ph \in {"stopped", "over"} THEN [s EXCEPT !.calls[i].st = "dead", !.calls[i].told = TRUE] ELSE Bad
Work(s, left) == IF s.ready /\ s.ph \in {"up", "asked"} /\ Active(s) = {} /\ s.work = left + 1 THEN [s EXCEPT !.work = left] ELSE Bad
Stop(s, n) == IF s.ready /\ s.ph = "asked" /\ Active(s) = {} /\ n = s.n THEN [s EXCEPT !.ph = "stopped"] ELSE Bad
Over(s) == IF s.ph = "stopped" THEN [s EXCEPT !.ph = "over"] ELSE Bad
Known(s, i) == i \in DOMAIN s.calls
Event(s, e) ==
  IF s.ph = "bad" THEN Bad
  ELSE CASE e[1] = "sub" -> Submit(s, e[2], e[3], 0)
         [] e[1] = "sent" -> Sent(s, e[2])
         [] e[1] = "begin" -> IF Known(s, e[2]) THEN Begin(s, e[2], e[3]) ELSE Bad
         [] e[1] = "end" -> IF Known(s, e[2]) THEN End(s, e[2], e[3]) ELSE Bad
         [] e[1] = "got" -> IF Known(s, e[2]) THEN Got(s, e[2], e[3], e[4]) ELSE Bad
         [] e[1] = "lost" -> IF Known(s, e[2]) THEN Lost(s, e[2]) ELSE Bad
         [] e[1] = "closed" -> IF Known(s, e[2]) THEN Closed(s, e[2]) ELSE Bad
         [] e[1] = "work" -> Work(s, e[2])
         [] e[1] = "ask" -> [s EXCEPT !.ph = IF @ = "up" THEN "asked" ELSE @]
         [] e[1] = "stop" -> Stop(s, e[2])
         [] e[1] = "over" -> Over(s)
RECURSIVE Events(_, _)
Events(s, ev) == IF ev = <<>> \/ s.ph = "bad" THEN s ELSE Events(Event(s, Head(ev)), Tail(ev))
(* --- progress: what may still be outstanding when nothing moves any more --- *)
Waiting(s) == {i \in DOMAIN s.calls : s.calls[i].st = "sub"}
Held(s, i) ==      \* a reason why call i has not begun
  LET c == s.calls[i] IN
  \/ \E j \in c.bef : s.calls[j].st \in {"sub", "run"}
  \/ ActiveMut(s) # {} \/ (c.mut /\ Active(s) # {})
  \/ ~c.mut /\ \E j \in Waiting(s) : s.calls[j].mut
  \/ s.work > 0 /\ Active(s) # {}        \* a unit of background work waits for the readers
Rest(s, open) ==
  /\ \A i \in Active(s) : s.calls[i].gated /\ i \notin open
  /\ \A i \in DOMAIN s.calls : s.calls[i].st = "ran" /\ s.calls[i].waits => s.calls[i].told
  /\ s.ph = "up" /\ s.ready => (\A i \in Waiting(s) : Held(s, i)) /\ (s.work > 0 => Active(s) # {})
  /\ s.ph = "asked" /\ s.ready => Active(s) # {}
  /\ s.ph # "stopped"
  /\ s.ph = "over" => \A i \in Waiting(s) : ~s.calls[i].waits
=============================================================================
