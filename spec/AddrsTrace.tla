---- MODULE AddrsTrace ----
EXTENDS Addrs, TraceBase
PureSt0 == [x |-> 0]
Means(ty, text, host, port) == LET r == Parse(ty, text) IN r.k = "any" \/ (r.k = "addr" /\ r.host = host /\ r.port = port)
(* the texts shown mean what they are shown for *)
Good(a, o, e) ==
  CASE e.k = "any" -> TRUE
    [] e.k # o.k -> FALSE
    [] a.op = "parse" /\ e.k = "addr" -> o.host = e.host /\ o.port = e.port /\ Means(a.ty, o.text, e.host, e.port)
    [] a.op = "show" -> o.same = TRUE /\ Means(a.ty, o.text, a.host, a.port)
    [] a.op \in {"conv", "resolve"} -> Len(o.v) = Len(e.v) /\ \A i \in 1..Len(e.v) : o.v[i].host = e.v[i].host /\ o.v[i].port = e.v[i].port /\ Means("opt", o.v[i].text, e.v[i].host, e.v[i].port)
    [] OTHER -> \A f \in DOMAIN e : o[f] = e[f]
PureSteps(s, a, o) == IF Good(a, o, Eval(a)) THEN {s} ELSE {}
PureExpected(s, a) == Eval(a)
====
