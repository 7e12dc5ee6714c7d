------------------------------- MODULE Funds -------------------------------
(* What a transaction may pay out. Its inputs bring coins and tokens, some of the coins only to be locked again for at   *)
(* least MAT blocks (those leaving a pool or a delegation); commands cost a fee that only free coins can pay; outputs    *)
(* take value. What is left of the coins is the fee of the transaction. The world (pools p, tokens k, orders o) is that  *)
(* of the ledger specifications; a transaction is judged against it and leaves it as it is.                               *)
EXTENDS Arith
CONSTANTS NP, ND, NK, NO, CAP2, ONEV, FEE(_, _)                \* CAP2: the largest amount; FEE(kind, rules)
PP == INSTANCE Pools WITH N <- NP, M <- ND
KK == INSTANCE Tokens WITH N <- NK
OO == INSTANCE Orders WITH N <- NO
FV0 == [p |-> PP!SV0, k |-> KK!KV0, o |-> OO!OV0]
Zeros == <<>> \o [c \in 1..NK + 1 |-> ZERO]                       \* coins first, then the tokens
Bad == [ok |-> FALSE]
F0(w) == [ok |-> TRUE, w |-> w, free |-> Zeros, cost |-> Zeros, held |-> ZERO]
Put(r, f, c, v) == IF Le(v, CAP2) /\ Le(Add(r[f][c + 1], v), CAP2) THEN [r EXCEPT ![f][c + 1] = Add(@, v)] ELSE Bad
Hold(r, v, mat) == IF mat = 0 THEN Put(r, "free", 0, v) ELSE IF Le(Add(r.held, v), CAP2) THEN [r EXCEPT !.held = Add(@, v)] ELSE Bad
Cost(r, c, v) == IF r.ok THEN Put(r, "cost", c, v) ELSE r

Fill(r, i, ver) ==
  LET q == OO!ODo(r.w.o, [op |-> "fill", id |-> i.id, ver |-> ver, v |-> i.v]) IN
  IF ~q[1] THEN Bad
  ELSE LET b == r.w.o[i.id][1]
           g == Sub(b.give, q[2][i.id][1].give)
           x == Put([r EXCEPT !.w.o = q[2]], "free", b.givec, g)
       IN Cost(x, b.askc, i.v)
Conclude(r, i) ==
  IF r.w.o[i.id] = <<>> THEN Bad
  ELSE LET b == r.w.o[i.id][1]
           x == Put([r EXCEPT !.w.o = <<>> \o [@ EXCEPT ![i.id] = <<>>]], "free", b.askc, Sub(b.ask0, b.ask))
       IN IF x.ok THEN Put(x, "free", b.givec, b.give) ELSE x
Take(r, i, ver, mat) ==
  IF ~r.ok THEN r
  ELSE CASE i.k = "out" -> Put(r, "free", i.c, i.v)
    [] i.k = "nft" -> Put(r, "free", i.c, ONEV)
    [] i.k = "pool" -> IF PP!Live(r.w.p, i.p) THEN Hold(r, PP!Own(r.w.p, i.p), mat) ELSE Bad
    [] i.k \in {"bad", "missing"} -> Bad
    [] i.k = "spend" -> LET q == PP!SDo(r.w.p, [op |-> "spend", d |-> i.d, v |-> i.v]) IN IF q[1] THEN Hold([r EXCEPT !.w.p = q[2]], i.v, mat) ELSE Bad
    [] i.k = "mint" -> LET q == KK!KDo(r.w.k, [op |-> "mint", id |-> i.id, v |-> i.v]) IN
         IF q[1] THEN Cost(Put([r EXCEPT !.w.k = q[2]], "free", i.id, i.v), 0, FEE("supply", ver)) ELSE Bad
    [] i.k \in {"unmint", "locksupply"} -> Cost(r, 0, FEE("supply", ver))
    [] i.k \in {"freeze", "unfreeze"} -> Cost(r, 0, FEE("freeze", ver))
    [] i.k = "auth" -> Cost(r, 0, FEE("auth", ver))
    [] i.k = "uri" -> Cost(r, 0, FEE("uri", ver))
    [] i.k = "fill" -> Fill(r, i, ver)
    [] i.k = "conclude" -> Conclude(r, i)
    [] i.k = "freezeorder" -> r
RECURSIVE TakeAll(_, _, _, _)
TakeAll(r, ins, ver, mat) == IF ins = <<>> THEN r ELSE TakeAll(Take(r, Head(ins), ver, mat), Tail(ins), ver, mat)
(* fees of commands come out of what is free, whatever the order of the inputs *)
PayCosts(r) == IF ~r.ok THEN r
  ELSE IF \A c \in 1..NK + 1 : Le(r.cost[c], r.free[c]) THEN [r EXCEPT !.free = <<>> \o [c \in 1..NK + 1 |-> Sub(@[c], r.cost[c])]] ELSE Bad
Ins(w, ins, ver, mat) == PayCosts(TakeAll(F0(w), ins, ver, mat))

(* outputs: free, and locks, what is locked for a number of blocks: a list of <<blocks, coins>> *)
G0 == [ok |-> TRUE, free |-> Zeros, locks |-> <<>>]
Give(r, o, ver) ==
  IF ~r.ok THEN r
  ELSE CASE o.k = "out" -> Put(r, "free", o.c, o.v)
    [] o.k = "lock" -> IF o.c # 0 \/ o.kind # "blocks" \/ o.n = 0 THEN Put(r, "free", o.c, o.v) ELSE IF Le(o.v, CAP2) THEN [r EXCEPT !.locks = Append(@, <<o.n, o.v>>)] ELSE Bad
    [] o.k \in {"stake", "delegate"} -> Put(r, "free", 0, o.v)
    [] o.k \in {"produce", "cdel"} -> r
    [] o.k = "order" -> Put(r, "free", o.c, o.v)
    [] o.k \in {"data", "issue", "nft"} -> Put(r, "free", 0, FEE(o.k, ver))
RECURSIVE GiveAll(_, _, _)
GiveAll(r, outs, ver) == IF outs = <<>> THEN r ELSE GiveAll(Give(r, Head(outs), ver), Tail(outs), ver)
RECURSIVE SumLocks(_, _)
SumLocks(q, S) == IF q = <<>> THEN ZERO ELSE LET t == SumLocks(Tail(q), S) IN IF Head(q)[1] \in S THEN Add(Head(q)[2], t) ELSE t
Locked(g, S) == SumLocks(g.locks, S)
Blocks(g) == {g.locks[i][1] : i \in 1..Len(g.locks)}
Outs(outs, ver) == LET g == GiveAll(G0, outs, ver) IN IF g.ok /\ \A n \in Blocks(g) : Le(Locked(g, {n}), CAP2) THEN g ELSE Bad

(* held coins can only go to outputs locked for at least mat blocks; everything else must be covered by free coins *)
Early(g, mat) == Locked(g, {n \in Blocks(g) : n < mat})
Late(g, mat) == Locked(g, {n \in Blocks(g) : n >= mat})
Covered(f, g, mat) ==
  /\ \A c \in 2..NK + 1 : Le(g.free[c], f.free[c])
  /\ Le(Add(g.free[1], Early(g, mat)), f.free[1])
  /\ Le(Add(g.free[1], Add(Early(g, mat), Late(g, mat))), Add(f.free[1], f.held))
Left(f, g, mat) ==
  LET late == Late(g, mat)
      fromheld == IF Le(late, f.held) THEN late ELSE f.held
  IN [ok |-> TRUE, held |-> Sub(f.held, fromheld),
      free |-> <<>> \o [c \in 1..NK + 1 |-> IF c = 1 THEN Sub(f.free[1], Add(g.free[1], Add(Early(g, mat), Sub(late, fromheld)))) ELSE Sub(f.free[c], g.free[c])]]
Settle(f, g, mat) == IF f.ok /\ g.ok /\ Covered(f, g, mat) THEN Left(f, g, mat) ELSE Bad
Judge(w, t, ver, mat) == Settle(Ins(w, t.ins, ver, mat), Outs(t.outs, ver), mat)
Join(a, b) == IF a.ok /\ b.ok /\ Le(Add(a.held, b.held), CAP2) /\ \A c \in 1..NK + 1 : Le(Add(a.free[c], b.free[c]), CAP2)
              THEN [a EXCEPT !.held = Add(@, b.held), !.free = <<>> \o [c \in 1..NK + 1 |-> Add(@[c], b.free[c])]] ELSE Bad
RECURSIVE JudgeAll(_, _, _, _)
JudgeAll(w, txs, ver, mat) == IF Len(txs) = 1 THEN Judge(w, txs[1], ver, mat) ELSE Join(JudgeAll(w, SubSeq(txs, 1, Len(txs) - 1), ver, mat), Judge(w, txs[Len(txs)], ver, mat))
Answer(r) == IF r.ok /\ Le(Add(r.free[1], r.held), CAP2) THEN [k |-> "fee", v |-> Add(r.free[1], r.held)] ELSE [k |-> "refused"]

FRes(w, a) ==
  CASE a.op = "p" -> LET q == PP!SDo(w.p, a.act) IN <<[w EXCEPT !.p = q[2]], [k |-> IF q[1] THEN "ok" ELSE "refused"]>>
    [] a.op = "k" -> LET q == KK!KDo(w.k, a.act) IN <<[w EXCEPT !.k = q[2]], [k |-> IF q[1] THEN "ok" ELSE "refused"]>>
    [] a.op = "o" -> LET q == OO!ODo(w.o, a.act) IN <<[w EXCEPT !.o = q[2]], [k |-> IF q[1] THEN "ok" ELSE "refused"]>>
    [] a.op = "txs" -> <<w, Answer(JudgeAll(w, a.txs, a.ver, a.mat))>>
    [] a.op = "reward" -> <<w, LET g == Outs(a.outs, a.ver) IN
         IF Le(Add(a.fee, a.subsidy), CAP2) THEN LET s == Settle([ok |-> TRUE, free |-> <<>> \o [Zeros EXCEPT ![1] = Add(a.fee, a.subsidy)], held |-> ZERO], g, a.mat) IN [k |-> IF s.ok THEN "ok" ELSE "refused"]
         ELSE [k |-> "refused"]>>
FAllowed(w, a) == a.op = "p" => PP!SCan(w.p, a.act)
FSteps(w, a, o) == IF ~FAllowed(w, a) THEN {} ELSE LET r == FRes(w, a) IN IF \A f \in DOMAIN r[2] : f \in DOMAIN o /\ o[f] = r[2][f] THEN {r[1]} ELSE {}
FExpected(w, a) == FRes(w, a)[2]

(* fees of the two generations of rules, in coins *)
Coins(kind, ver) ==
  CASE kind = "issue" -> 100
    [] kind = "nft" -> IF ver = 0 THEN 100 ELSE 5
    [] kind = "supply" -> IF ver = 0 THEN 100 ELSE 50
    [] kind = "freeze" -> IF ver = 0 THEN 100 ELSE 50
    [] kind = "auth" -> IF ver = 0 THEN 100 ELSE 20
    [] kind = "uri" -> 20
    [] kind = "data" -> IF ver = 0 THEN 100 ELSE 20
AtomsPerCoin == NFromInt(100000000)
GFee(kind, ver) == N2(NMul(NMul(NFromInt(Coins(kind, ver)), AtomsPerCoin), NFromInt(1000)))
GCap2 == N2(NMaxOf(128))
GOne == N2(<<1>>)
=============================================================================
