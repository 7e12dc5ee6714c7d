---------------------------- MODULE Subscriptions ----------------------------
(* Event subscriptions of websocket clients. subs[i]: its connection, its kind, whether it is on, and the events of the    *)
(* source that it has not received yet, as it will see them.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S0 == [up |-> TRUE, conns |-> <<>>, subs |-> <<>>]
(* what a subscription of a kind makes of an event: mapped, filtered or as it is *)
Seen(kind, v) == CASE kind = "map" -> <<v + 1000>> [] kind = "odd" -> IF v % 2 = 1 THEN <<v>> ELSE <<>> [] OTHER -> <<v>>
RECURSIVE SeenAll(_, _, _)
SeenAll(kind, v, n) == IF n = 0 THEN <<>> ELSE SeenAll(kind, v, n - 1) \o Seen(kind, v + n - 1)
Open(s, c) == c + 1 \in 1..Len(s.conns) /\ s.conns[c + 1]
On(s) == {i \in 1..Len(s.subs) : s.subs[i].on}
Listening(s, i) == i + 1 \in 1..Len(s.subs) /\ Open(s, s.subs[i + 1].c)
Left(s, i) == Len(s.subs[i + 1].q)
SAllowed(s, a) ==
  CASE a.op = "connect" -> TRUE
    [] a.op \in {"sub", "ping", "close"} -> Open(s, a.c)
    [] a.op = "unsub" -> Listening(s, a.i) /\ Left(s, a.i) = 0
    [] a.op = "drain" -> Listening(s, a.i) /\ a.n = Left(s, a.i)
    [] a.op \in {"cast", "end"} -> s.up
Yes == [k |-> "ok"]
SRes(s, a) ==
  CASE a.op = "connect" -> <<[s EXCEPT !.conns = Append(@, TRUE)], Yes>>
    [] a.op = "sub" -> IF s.up THEN <<[s EXCEPT !.subs = Append(@, [c |-> a.c, kind |-> a.kind, on |-> TRUE, q |-> <<>>])], Yes>> ELSE <<s, [k |-> "rejected"]>>
    [] a.op = "ping" -> <<s, Yes>>
    [] a.op = "close" -> <<[s EXCEPT !.conns[a.c + 1] = FALSE, !.subs = <<>> \o [i \in 1..Len(@) |-> IF @[i].c = a.c THEN [@[i] EXCEPT !.on = FALSE, !.q = <<>>] ELSE @[i]]], Yes>>
    [] a.op = "unsub" -> <<[s EXCEPT !.subs[a.i + 1].on = FALSE], IF s.up THEN [k |-> "bool", v |-> s.subs[a.i + 1].on] ELSE [k |-> "bool"]>>
    [] a.op = "drain" -> <<[s EXCEPT !.subs[a.i + 1].q = <<>>], [k |-> "events", v |-> s.subs[a.i + 1].q]>>
    [] a.op = "cast" -> <<[s EXCEPT !.subs = <<>> \o [i \in 1..Len(@) |-> IF @[i].on THEN [@[i] EXCEPT !.q = @ \o SeenAll(s.subs[i].kind, a.v, a.n)] ELSE @[i]]], Yes>>
    [] a.op = "end" -> <<[s EXCEPT !.up = FALSE], Yes>>
=============================================================================
