------------------------------ MODULE PoolsMC ------------------------------
EXTENDS Pools, LayersMC
CONSTANTS POOLS, AMOUNTS, REWARDS
Pool(q, c, m) == [op |-> "create", key |-> 1, pledge |-> q, cost |-> c, mpt |-> m]
C1 == {Pool(3, 1, 200)}
C2 == {Pool(3, 1, 200), Pool(4, 0, 0), Pool(0, 6, 1000)}
A1 == {2}
A2 == {1, 3}
R1 == {<<9, 1>>}
R2 == {<<9, 0>>, <<9, 1>>, <<1, 1>>}
SActs == {x @@ [p |-> i] : x \in POOLS \cup {[op |-> "decommission"]}, i \in 1..N}
  \cup {[op |-> "cdel", p |-> i, d |-> j, key |-> 2] : i \in 1..N, j \in 1..M} \cup {[op |-> "ddel", d |-> j] : j \in 1..M}
  \cup {[op |-> o, d |-> j, v |-> x] : o \in {"delegate", "spend"}, j \in 1..M, x \in AMOUNTS}
  \cup {[op |-> "reward", p |-> i, v |-> x[1], ver |-> x[2]] : i \in 1..N, x \in REWARDS}
(* value comes only from operations that bring it in, and goes only with those that take it out *)
RECURSIVE AllD(_, _)
AllD(v, j) == IF j = 0 THEN 0 ELSE AllD(v, j - 1) + (IF v.d[j] = <<>> THEN 0 ELSE v.d[j][1].bal)
RECURSIVE AllP(_, _)
AllP(v, i) == IF i = 0 THEN 0 ELSE AllP(v, i - 1) + (IF Live(v, i) THEN Own(v, i) ELSE 0)
Total(v) == AllD(v, M) + AllP(v, N)
Brought(v, a) == CASE a.op = "create" -> a.pledge [] a.op \in {"delegate", "reward"} -> a.v [] a.op = "spend" -> -a.v [] a.op = "decommission" -> -Own(v, a.p) [] OTHER -> 0
Conserved == \A a \in SActs : SCan(Top(s).v, a) => LET r == SDo(Top(s).v, a) IN r[1] => Total(r[2]) = Total(Top(s).v) + Brought(Top(s).v, a)
NotNegative == \A v \in AllViews : (\A j \in 1..M : v.d[j] # <<>> => v.d[j][1].bal >= 0) /\ (\A i \in 1..N : v.p[i].rewards >= 0 /\ v.p[i].pledge >= 0)
=============================================================================
