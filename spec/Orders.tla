------------------------------- MODULE Orders -------------------------------
(* The order book: per order nothing, or what it asks and gives (original and remaining) and whether it is frozen.       *)
EXTENDS Arith
CONSTANT N
OV0 == <<>> \o [i \in 1..N |-> <<>>]
No(v) == <<FALSE, v>>
Yes(v, i, r) == <<TRUE, <<>> \o [v EXCEPT ![i] = r]>>
(* what is handed out for paying x: version 0 at the price of what remains, version 1 at the original price *)
Price(r, ver) == IF ver = 0 THEN <<r.ask, r.give>> ELSE <<r.ask0, r.give0>>
Filled(r, ver, x) == MulDiv(Price(r, ver)[2], x, Price(r, ver)[1])
ODo(v, a) ==
  LET i == a.id IN
  CASE a.op = "create" ->
         IF v[i] # <<>> \/ a.ask = ZERO \/ a.give = ZERO \/ ~Le(a.ask, CAP) \/ ~Le(a.give, CAP) THEN No(v)
         ELSE Yes(v, i, <<[fz |-> FALSE, key |-> a.key, askc |-> a.askc, givec |-> a.givec, ask0 |-> a.ask, give0 |-> a.give, ask |-> a.ask, give |-> a.give]>>)
    [] a.op = "fill" ->
         IF v[i] = <<>> THEN No(v)
         ELSE LET r == v[i][1] IN
              IF r.fz \/ ~Le(a.v, r.ask) \/ Price(r, a.ver)[1] = ZERO THEN No(v)
              ELSE LET g == Filled(r, a.ver, a.v) IN
                   IF a.ver = 1 /\ g = ZERO THEN No(v)
                   ELSE Yes(v, i, <<[r EXCEPT !.ask = Sub(@, a.v), !.give = Sub(@, g)]>>)
    [] a.op = "freeze" -> IF v[i] = <<>> \/ v[i][1].fz THEN No(v) ELSE Yes(v, i, <<[v[i][1] EXCEPT !.fz = TRUE]>>)
    [] a.op = "conclude" -> IF v[i] = <<>> THEN No(v) ELSE Yes(v, i, <<>>)
=============================================================================
