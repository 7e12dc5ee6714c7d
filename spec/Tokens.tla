------------------------------- MODULE Tokens -------------------------------
(* Fungible tokens: per token nothing, or its kind of supply, the supply in circulation and what may be changed.         *)
EXTENDS Arith
CONSTANT N
KV0 == <<>> \o [i \in 1..N |-> <<>>]
No(v) == <<FALSE, v>>
Yes(v, i, r) == <<TRUE, <<>> \o [v EXCEPT ![i] = r]>>
Frozen(r) == r.fz \in {"frozen", "forever"}
CanMint(r, x) ==
  /\ ~Frozen(r) /\ Le(x, CAP) /\ Le(Add(r.supply, x), CAP)
  /\ CASE r.kind = "fixed" -> Le(Add(r.supply, x), r.limit)
       [] r.kind = "lockable" -> ~r.locked
       [] OTHER -> TRUE
KDo(v, a) ==
  LET i == a.id
      r == v[i][1]
      If(c, x) == IF v[i] = <<>> THEN No(v) ELSE IF c THEN Yes(v, i, <<x>>) ELSE No(v)
  IN
  CASE a.op = "issue" -> IF v[i] # <<>> THEN No(v)
         ELSE Yes(v, i, <<[kind |-> a.kind, limit |-> IF a.kind = "fixed" THEN a.limit ELSE ZERO, locked |-> FALSE, fz |-> IF a.freezable THEN "can" ELSE "cannot", auth |-> a.auth, uri |-> a.uri, supply |-> ZERO]>>)
    [] a.op = "mint" -> If(CanMint(r, a.v), [r EXCEPT !.supply = Add(@, a.v)])
    [] a.op = "unmint" -> If(~Frozen(r) /\ ~r.locked /\ Le(a.v, r.supply), [r EXCEPT !.supply = Sub(@, a.v)])
    [] a.op = "lock" -> If(~Frozen(r) /\ ~r.locked /\ r.kind = "lockable", [r EXCEPT !.locked = TRUE])
    [] a.op = "freeze" -> If(r.fz = "can", [r EXCEPT !.fz = IF a.unfreezable THEN "frozen" ELSE "forever"])
    [] a.op = "unfreeze" -> If(r.fz = "frozen", [r EXCEPT !.fz = "can"])
    [] a.op = "auth" -> If(~Frozen(r), [r EXCEPT !.auth = a.auth])
    [] a.op = "uri" -> If(~Frozen(r), [r EXCEPT !.uri = a.uri])
=============================================================================
