------------------------------ MODULE Counters ------------------------------
(* A counter of outstanding work: guards raise it by one while they live, waits return at zero.                          *)
(* Called from several threads: every operation takes effect at one moment between its call and its return.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Idle == [k |-> "idle"]
C0 == [n |-> 0, th |-> [t \in 0..3 |-> Idle]]
Effect(s, t) ==
  LET x == s.th[t] IN
  CASE x.k = "inc" -> {[s EXCEPT !.n = @ + 1, !.th[t] = [k |-> "done"]]}
    [] x.k = "dec" -> {[s EXCEPT !.n = @ - 1, !.th[t] = [k |-> "done"]]}
    [] x.k = "val" -> {[s EXCEPT !.th[t] = [k |-> "got", v |-> s.n]]}
    [] x.k = "wait" -> IF s.n = 0 THEN {[s EXCEPT !.th[t] = [k |-> "done"]]} ELSE {}
    [] OTHER -> {}
Effects(s) == UNION {Effect(s, t) : t \in DOMAIN s.th}
RECURSIVE CClose(_)
CClose(S) == LET T == S \cup UNION {Effects(s) : s \in S} IN IF T = S THEN S ELSE CClose(T)
EvC(s, a) ==
  LET x == s.th[a.t] IN
  CASE a.e \in {"inc", "dec", "val", "wait"} -> {[s EXCEPT !.th[a.t] = [k |-> a.e]]}
    [] a.e = "vald" -> IF x.k = "got" /\ x.v = a.v THEN {[s EXCEPT !.th[a.t] = Idle]} ELSE {}
    [] a.e \in {"incd", "decd", "waited"} -> IF x.k = "done" THEN {[s EXCEPT !.th[a.t] = Idle]} ELSE {}
    [] a.e = "end" -> {s}
CSt0 == C0
CSteps(s, a, o) == UNION {EvC(x, a) : x \in CClose({s})}
CExpected(s, a) == s
(* the same from one thread: the answer tells the value and how many waits have returned by now *)
S0 == [held |-> {}, up |-> TRUE, waits |-> 0, back |-> 0]
SAllowed(s, a) ==
  CASE a.op = "inc" -> s.up /\ a.i \notin s.held
    [] a.op = "dec" -> a.i \in s.held
    [] a.op = "wait" -> s.up
    [] a.op = "drop" -> s.up /\ s.waits = s.back
SRes(s, a) ==
  LET t == CASE a.op = "inc" -> [s EXCEPT !.held = @ \cup {a.i}]
             [] a.op = "dec" -> [s EXCEPT !.held = @ \ {a.i}]
             [] a.op = "wait" -> [s EXCEPT !.waits = @ + 1]
             [] a.op = "drop" -> [s EXCEPT !.waits = @ + 1, !.up = FALSE]
      u == IF t.held = {} THEN [t EXCEPT !.back = t.waits] ELSE t
  IN <<u, [k |-> "ok", v |-> Cardinality(u.held), back |-> u.back]>>
=============================================================================
