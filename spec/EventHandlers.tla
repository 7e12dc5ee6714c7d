--------------------------- MODULE EventHandlers ---------------------------
(* Deferred event handlers. Publishing hands the event to every handler registered so far, in registration order; one    *)
(* hand-over is carried out at a time, first come, first served. The log is in real-time order: "pub"/"pubd" enclose a    *)
(* publication (v identifies it), "wait"/"waited" a wait, "start"/"fin" are logged by the handler itself. Publications    *)
(* that overlap may be carried out in either order, or mixed; one that returned before another was called comes first.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
E0 == [subs |-> 0, ret |-> {}, q |-> {}, run |-> {}, waits |-> {}]
Before(j, k) == j.v \in k.pre \/ (j.v = k.v /\ j.h < k.h)
First(s) == {k \in s.q : ~\E j \in s.q : Before(j, k)}
EvE(s, a) ==
  CASE a.e = "sub" -> {[s EXCEPT !.subs = @ + 1]}
    [] a.e = "pub" -> {[s EXCEPT !.q = @ \cup {[h |-> i, v |-> a.v, pre |-> {j.v : j \in {j \in s.q : j.v \in s.ret}}] : i \in 0..(s.subs - 1)}]}
    [] a.e = "pubd" -> {[s EXCEPT !.ret = @ \cup {a.v}]}
    [] a.e = "start" -> IF s.run # {} THEN {} ELSE {[s EXCEPT !.q = @ \ {j}, !.run = {j}] : j \in {j \in First(s) : j.h = a.h /\ j.v = a.v}}
    [] a.e = "fin" -> {[s EXCEPT !.run = {}, !.waits = {[w EXCEPT !.on = @ \ {<<j.h, j.v>>}] : w \in s.waits}] : j \in {j \in s.run : j.h = a.h /\ j.v = a.v}}
    [] a.e = "wait" -> {[s EXCEPT !.waits = @ \cup {[i |-> a.v, on |-> {<<j.h, j.v>> : j \in {j \in s.q \cup s.run : j.v \in s.ret}}]}]}
    [] a.e = "waited" -> IF [i |-> a.v, on |-> {}] \in s.waits THEN {[s EXCEPT !.waits = {w \in @ : w.i # a.v}]} ELSE {}
    [] a.e = "quiet" -> IF s.q = {} /\ s.run = {} /\ s.waits = {} THEN {s} ELSE {}
ESteps(s, a, o) == EvE(s, a)
EExpected(s, a) == [queue |-> s.q, running |-> s.run, waits |-> s.waits]
=============================================================================
