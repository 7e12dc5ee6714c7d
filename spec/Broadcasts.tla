----------------------------- MODULE Broadcasts -----------------------------
(* A broadcaster: each subscriber has its own unbounded queue.                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
B0 == [up |-> TRUE, q |-> <<>>, alive |-> {}, exact |-> TRUE]
Ids(s) == 1..Len(s.q)
BAllowed(s, a) ==
  CASE a.op \in {"sub", "using", "cast", "purge", "count", "end"} -> s.up
    [] a.op \in {"drop", "recv", "stream"} -> a.i + 1 \in s.alive
BRes(s, a) ==
  LET yes == [k |-> "ok"] IN
  CASE a.op \in {"sub", "using"} -> {<<[s EXCEPT !.q = Append(@, <<>>), !.alive = @ \cup {Len(s.q) + 1}], yes>>}
    [] a.op = "cast" -> {<<[s EXCEPT !.q = [i \in Ids(s) |-> IF i \in s.alive THEN Append(s.q[i], a.v) ELSE s.q[i]]], yes>>}
    [] a.op = "purge" -> {<<[s EXCEPT !.exact = TRUE], yes>>}
    [] a.op = "count" -> {<<s, [k |-> "num", v |-> n]>> : n \in IF s.exact THEN {Cardinality(s.alive)} ELSE Cardinality(s.alive) .. Len(s.q)}
    [] a.op = "end" -> {<<[s EXCEPT !.up = FALSE], yes>>}
    [] a.op = "stream" -> {<<s, yes>>}
    [] a.op = "drop" -> {<<[s EXCEPT !.alive = @ \ {a.i + 1}, !.q[a.i + 1] = <<>>, !.exact = FALSE], yes>>}
    [] a.op = "recv" -> LET i == a.i + 1 IN
         IF s.q[i] # <<>> THEN {<<[s EXCEPT !.q[i] = Tail(@)], [k |-> "val", v |-> Head(s.q[i])]>>}
         ELSE {<<s, [k |-> IF s.up THEN "pending" ELSE "end"]>>}
=============================================================================
