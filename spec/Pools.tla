------------------------------- MODULE Pools -------------------------------
(* Staking pools and delegations. p[i]: [st, key, pledge, rewards, cost, mpt]; d[j]: nothing or [p, key, bal].           *)
(* The balance of a pool is not kept: it is its pledge, its rewards and what is delegated to it.                         *)
EXTENDS Arith
CONSTANTS N, M
P0 == [st |-> "none", key |-> 0, pledge |-> ZERO, rewards |-> ZERO, cost |-> ZERO, mpt |-> ZERO]
SV0 == [p |-> <<>> \o [i \in 1..N |-> P0], d |-> <<>> \o [j \in 1..M |-> <<>>]]
No(v) == <<FALSE, v>>
Live(v, i) == v.p[i].st = "live"
RECURSIVE SumTo(_, _, _)
SumTo(v, i, j) == IF j = 0 THEN ZERO ELSE LET t == SumTo(v, i, j - 1) IN IF v.d[j] # <<>> /\ v.d[j][1].p = i THEN Add(t, v.d[j][1].bal) ELSE t
Delegated(v, i) == SumTo(v, i, M)
Own(v, i) == Add(v.p[i].pledge, v.p[i].rewards)
Bal(v, i) == Add(Own(v, i), Delegated(v, i))
SShow(v) == [p |-> <<>> \o [i \in 1..N |-> IF Live(v, i) THEN LET r == v.p[i] IN <<[key |-> r.key, pledge |-> r.pledge, rewards |-> r.rewards, cost |-> r.cost, mpt |-> r.mpt, bal |-> Bal(v, i)]>> ELSE <<>>],
             d |-> v.d]
(* a pool identifier is never used again; nothing is said about delegating to a pool that is gone *)
SCan(v, a) ==
  CASE a.op = "create" -> v.p[a.p].st # "gone"
    [] a.op = "delegate" -> v.d[a.d] # <<>> => Live(v, v.d[a.d][1].p)
    [] OTHER -> TRUE
Fit(v, w) == IF \A i \in 1..N : Live(w, i) => Le(Bal(w, i), CAP) THEN <<TRUE, w>> ELSE No(v)
PutP(v, i, r) == [v EXCEPT !.p = <<>> \o [@ EXCEPT ![i] = r]]
PutD(v, j, r) == [v EXCEPT !.d = <<>> \o [@ EXCEPT ![j] = r]]
More(v, j, x) == [v EXCEPT !.d = <<>> \o [@ EXCEPT ![j] = <<[@[1] EXCEPT !.bal = Add(@, x)]>>]]

(* what the staker gets directly, before the rest is divided between the delegations *)
StakerPart(v, i, x, ver) ==
  LET r == v.p[i] IN
  IF Lt(x, r.cost) THEN x
  ELSE LET t == Sub(x, r.cost) IN
       IF ver = 0 THEN Add(MulDiv(t, r.mpt, THOUSAND), r.cost)
       ELSE LET pro == MulDiv(t, Own(v, i), Bal(v, i)) IN Add(Add(MulDiv(Sub(t, pro), r.mpt, THOUSAND), pro), r.cost)
RECURSIVE Deal(_, _, _, _, _)
Deal(v, w, i, x, j) ==   \* <<view, given>> after dealing with delegations 1..j; the shares are those of v
  IF j = 0 THEN <<w, ZERO>>
  ELSE LET q == Deal(v, w, i, x, j - 1) IN
       IF v.d[j] = <<>> \/ v.d[j][1].p # i THEN q
       ELSE LET g == MulDiv(x, v.d[j][1].bal, Delegated(v, i)) IN <<More(q[1], j, g), Add(q[2], g)>>
Reward(v, i, x, ver) ==
  LET rest == Sub(x, StakerPart(v, i, x, ver))
      q == IF rest = ZERO \/ Delegated(v, i) = ZERO THEN <<v, ZERO>> ELSE Deal(v, v, i, rest, M)
  IN PutP(q[1], i, [v.p[i] EXCEPT !.rewards = Add(@, Sub(x, q[2]))])

SDo(v, a) ==
  CASE a.op = "create" -> IF Live(v, a.p) \/ ~Le(a.pledge, CAP) THEN No(v)
         ELSE Fit(v, PutP(v, a.p, [st |-> "live", key |-> a.key, pledge |-> a.pledge, rewards |-> ZERO, cost |-> a.cost, mpt |-> a.mpt]))
    [] a.op = "decommission" -> IF ~Live(v, a.p) THEN No(v) ELSE <<TRUE, PutP(v, a.p, [P0 EXCEPT !.st = "gone"])>>
    [] a.op = "cdel" -> IF ~Live(v, a.p) \/ v.d[a.d] # <<>> THEN No(v) ELSE <<TRUE, PutD(v, a.d, <<[p |-> a.p, key |-> a.key, bal |-> ZERO]>>)>>
    [] a.op = "ddel" -> IF v.d[a.d] = <<>> THEN No(v) ELSE IF v.d[a.d][1].bal # ZERO \/ Live(v, v.d[a.d][1].p) THEN No(v) ELSE <<TRUE, PutD(v, a.d, <<>>)>>
    [] a.op = "delegate" -> IF v.d[a.d] = <<>> \/ ~Le(a.v, CAP) THEN No(v) ELSE Fit(v, More(v, a.d, a.v))
    [] a.op = "spend" -> IF v.d[a.d] = <<>> THEN No(v) ELSE IF ~Le(a.v, v.d[a.d][1].bal) THEN No(v)
         ELSE <<TRUE, PutD(v, a.d, <<[v.d[a.d][1] EXCEPT !.bal = Sub(@, a.v)]>>)>>
    [] a.op = "increase" -> IF ~Live(v, a.p) \/ ~Le(a.v, CAP) THEN No(v) ELSE Fit(v, PutP(v, a.p, [v.p[a.p] EXCEPT !.rewards = Add(@, a.v)]))
    [] a.op = "reward" -> IF ~Live(v, a.p) \/ ~Le(a.v, CAP) THEN No(v) ELSE IF a.ver = 1 /\ Bal(v, a.p) = ZERO THEN No(v) ELSE Fit(v, Reward(v, a.p, a.v, a.ver))
=============================================================================
