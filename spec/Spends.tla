------------------------------- MODULE Spends -------------------------------
(* Who may spend what, and when. A signature is known by the key and by the message it was made for: a transaction, the  *)
(* input it stands at, how much of the transaction it covers, and the state of the world then. Nothing else makes an     *)
(* input spendable: the right keys, over what is being spent and covered now, the secret, and time.                      *)
EXTENDS BigNum, FiniteSets, TLC
N2(m) == [neg |-> FALSE, mag |-> m]
Num(i) == N2(NFromInt(i))
MaxKeys == 32
U64 == NMaxOf(64)
I64 == NMaxOf(63)
Idx(q) == DOMAIN q
(* ------------------------------------------------------------------------------------------------- what is covered *)
Pays(u) ==        \* the output as it stands in the set of unspent outputs
  CASE u.k \in {"transfer", "nft", "produce"} -> <<u.k, u.v, u.d>>
    [] u.k = "cdel" -> <<u.k, u.d>>
    [] u.k = "issue" -> <<u.k>>
    [] u.k = "lock" -> <<u.k, u.v, u.d, u.lock>>
    [] u.k = "pool" -> <<u.k, u.v, u.d, u.d2>>
    [] u.k = "htlc" -> <<u.k, u.v, u.d, u.d2, u.lock, u.secret>>
    [] OTHER -> <<u.k, u.v>>
Known(w, x) ==    \* everything an input refers to is there
  CASE x.k = "utxo" -> x.n \in Idx(w.utxos) /\ (w.utxos[x.n].k = "produce" => w.pool.here)
    [] x.k \in {"cmd", "ocmd"} /\ x.c \in {"fill", "conclude"} -> w.order.here
    [] OTHER -> TRUE
Rest(w, ver, ty, x) ==      \* what a signature covers besides the input itself
  LET o == w.order IN
  CASE x.k = "utxo" -> IF ver = 1 /\ ty = "tx" /\ w.utxos[x.n].k = "produce" THEN <<"produce", Pays(w.utxos[x.n]), w.pool.bal>> ELSE <<"utxo", Pays(w.utxos[x.n])>>
    [] ver = 1 /\ x.k \in {"cmd", "ocmd"} /\ x.c = "fill" -> <<"fill", o.ia, o.ig>>
    [] ver = 1 /\ x.k \in {"cmd", "ocmd"} /\ x.c = "conclude" -> <<"conclude", o.ia, o.ig, o.a, o.g>>
    [] OTHER -> <<"none">>
Coverable(w, tx) == \A j \in Idx(tx.ins) : IF tx.ty = "tx" THEN Known(w, tx.ins[j]) ELSE tx.ins[j].k = "utxo" /\ tx.ins[j].n \in Idx(w.utxos)
Signable(m, w) == Coverable(w, m.tx) /\ m.i \in Idx(m.tx.ins) /\ (m.mode.o = "single" => m.i <= Len(m.tx.outs))
Covered(m, w, ver) ==
  LET R(j) == <<m.tx.ins[j], Rest(w, ver, m.tx.ty, m.tx.ins[j])>>
      head == IF m.tx.ty = "tx" THEN <<"tx", m.tx.flags>> ELSE <<"reward">>
      ins == IF m.mode.any THEN <<"own", R(m.i)>> ELSE <<"all", [j \in Idx(m.tx.ins) |-> R(j)]>>
      outs == CASE m.mode.o = "all" -> <<"all", m.tx.outs>> [] m.mode.o = "none" -> <<"none">> [] OTHER -> <<"one", m.tx.outs[m.i]>>
  IN <<m.mode, head, ins, outs>>
(* ------------------------------------------------------------------------------------------------------- signatures *)
(* sg = [key, m]: made with key for message number m (0: not a signature of anything) *)
Signed(a, sg, key, now) ==
  /\ sg.m # 0 /\ sg.key = key
  /\ LET m == a.msgs[sg.m] IN Signable(m, a.worlds[m.w]) /\ Covered(m, a.worlds[m.w], m.ver) = now
GoodChallenge(min, keys) == keys # <<>> /\ Len(keys) <= MaxKeys /\ min >= 1 /\ min <= Len(keys)
Proves(a, d, b, now) ==       \* body b of a witness speaks for destination d
  CASE d.f = "pk" -> b.f = "pk" /\ Signed(a, b.sg, d.key, now)
    [] d.f = "pkh" -> b.f = "pkh" /\ b.pub = d.key /\ Signed(a, b.sg, d.key, now)
    [] d.f = "ms" -> /\ b.f = "ms" /\ b.min = d.min /\ b.keys = d.keys
                     /\ GoodChallenge(d.min, d.keys)
                     /\ Len(b.sigs) = d.min
                     /\ \A j \in Idx(b.sigs) : b.sigs[j].ix \in Idx(d.keys) /\ Signed(a, b.sigs[j].sg, d.keys[b.sigs[j].ix], now)
    [] OTHER -> FALSE
Authorized(a, tx, i, d, wit) ==
  IF d.f = "any" THEN wit.k = "no"
  ELSE /\ wit.k = "std"
       /\ LET m == [tx |-> tx, i |-> i, mode |-> wit.mode] IN Signable(m, a.worlds[1]) /\ Proves(a, d, wit.body, Covered(m, a.worlds[1], a.ver))
(* ------------------------------------------------------------------------------------------------------------- time *)
SrcTime(w, src) ==      \* <<>>: no such block
  IF src = -1 THEN <<w.t>> ELSE IF src <= Len(w.times) THEN <<w.times[src]>> ELSE IF w.via = "chain" /\ src = w.h THEN <<w.t>> ELSE <<>>
Open(w, lock, src) ==
  CASE lock.k = "height" -> NLe(lock.n.mag, NFromInt(w.h))
    [] lock.k = "time" -> NLe(lock.n.mag, w.t.mag)
    [] lock.k = "blocks" -> NLe(lock.n.mag, I64) /\ NLe(NAdd(NFromInt(IF src = -1 THEN w.h ELSE src), lock.n.mag), NFromInt(w.h))
    [] lock.k = "seconds" -> LET s == SrcTime(w, src) IN s # <<>> /\ LET e == NAdd(s[1].mag, lock.n.mag) IN NLe(e, U64) /\ NLe(e, w.t.mag)
(* ----------------------------------------------------------------------------------------------------- one input *)
Plain(wit) == IF wit.k = "no" THEN TRUE ELSE wit.wrap = "plain"
Auth(a, tx, i, d, wit) == Plain(wit) /\ Authorized(a, tx, i, d, wit)
HtlcOk(a, tx, i, u, wit, locks, sigs) ==
  /\ wit.k = "std"
  /\ CASE wit.wrap = "spend" -> (~sigs \/ ~locks \/ wit.secret = u.secret) /\ (sigs => Authorized(a, tx, i, u.d, wit))
       [] wit.wrap = "refund" -> (locks => Open(a.worlds[1], u.lock, u.src)) /\ (sigs => Authorized(a, tx, i, u.d2, wit))
       [] OTHER -> FALSE
Dead == {"burn", "data", "cdel", "delegate", "issue", "order"}
(* given: the destination a caller of the signature-only check supplies, <<>> otherwise *)
Input(a, tx, i, wit, locks, sigs, given) ==
  LET w == a.worlds[1]
      x == tx.ins[i]
      Of(h, d) == ~sigs \/ IF given # <<>> THEN Auth(a, tx, i, given[1], wit) ELSE h /\ Auth(a, tx, i, d, wit)
  IN
  IF x.k = "utxo" THEN
    /\ x.n \in Idx(w.utxos)
    /\ LET u == w.utxos[x.n] IN
       CASE u.k \in {"transfer", "nft", "pool"} -> sigs => Auth(a, tx, i, u.d, wit)
         [] u.k = "lock" -> (locks => Open(w, u.lock, u.src)) /\ (sigs => Auth(a, tx, i, u.d, wit))
         [] u.k = "produce" -> Of(w.pool.here, w.pool.key)
         [] u.k = "htlc" -> HtlcOk(a, tx, i, u, wit, locks, sigs)
         [] u.k \in Dead -> FALSE
  ELSE CASE x.k = "deleg" -> Of(w.deleg.here, w.deleg.key)
         [] x.k = "cmd" /\ x.c = "fill" -> TRUE
         [] x.k = "ocmd" /\ x.c = "fill" -> sigs => wit.k = "no"
         [] x.k \in {"cmd", "ocmd"} /\ x.c \in {"conclude", "freezeorder"} -> Of(w.order.here, w.order.key)
         [] OTHER -> Of(w.token.here, w.token.key)
Reward(a, tx, i, wit) ==
  LET w == a.worlds[1]
      u == w.utxos[tx.ins[i].n] IN
  CASE u.k = "produce" -> Auth(a, tx, i, u.d, wit)
    [] u.k = "pool" -> Auth(a, tx, i, u.d2, wit)
    [] OTHER -> FALSE
Verdict(a) ==
  LET w == a.worlds[1]
      tx == a.tx
      J == Idx(tx.ins)
  IN CASE a.how = "full" -> Coverable(w, tx) /\ \A j \in J : IF tx.ty = "tx" THEN Input(a, tx, j, a.wits[j], TRUE, TRUE, <<>>) ELSE Reward(a, tx, j, a.wits[j])
       [] a.how = "locks" -> (\A j \in J : tx.ins[j].k = "utxo" => tx.ins[j].n \in Idx(w.utxos)) /\ \A j \in J : Input(a, tx, j, a.wits[j], TRUE, FALSE, <<>>)
       [] a.how = "sig" -> Coverable(w, tx) /\ a.i \in J /\ Input(a, tx, a.i, a.wits[a.i], FALSE, TRUE, <<a.dst>>)
(* ------------------------------------------------------------------------------------- collecting signatures, step by step *)
(* state: what has been collected: [min, keys, sigs], sigs a function from key positions to [key, m] *)
MS0 == [min |-> 0, keys |-> <<>>, sigs |-> <<>>]
Has(s) == {s.sigs[j].ix : j \in Idx(s.sigs)}
Right(s, m) == \A j \in Idx(s.sigs) : s.sigs[j].m = m /\ s.sigs[j].key = s.keys[s.sigs[j].ix]
Sound(s) == GoodChallenge(s.min, s.keys) /\ (\A x \in Has(s) : x \in Idx(s.keys)) /\ Len(s.sigs) <= s.min
State(s, m) == IF ~Sound(s) THEN "refused" ELSE IF ~Right(s, m) THEN "invalid" ELSE IF Len(s.sigs) < s.min THEN "partial" ELSE "complete"
Put(s, ix, sg) == [s EXCEPT !.sigs = SelectSeq(@, LAMBDA y : y.ix < ix) \o <<[ix |-> ix, key |-> sg.key, m |-> sg.m]>> \o SelectSeq(@, LAMBDA y : y.ix > ix)]
Res(k) == [k |-> k]
SRes(s, a) ==
  CASE a.op = "check" -> <<s, Res(IF Verdict(a) THEN "ok" ELSE "refused")>>
    [] a.op = "challenge" -> <<[min |-> a.min, keys |-> a.keys, sigs |-> <<>>], [k |-> "ok", good |-> GoodChallenge(a.min, a.keys)]>>
    [] a.op = "put" -> <<Put(s, a.ix, [key |-> a.key, m |-> a.m]), Res("ok")>>
    [] a.op = "sign" ->     \* add the signature of a.key for position a.ix
         IF ~GoodChallenge(s.min, s.keys) \/ a.ix \in Has(s) \/ State(s, a.m) # "partial" \/ a.ix \notin Idx(s.keys) \/ s.keys[a.ix] # a.key
         THEN <<s, Res("refused")>>
         ELSE LET n == Put(s, a.ix, [key |-> a.key, m |-> a.m]) IN <<n, Res(State(n, a.m))>>
    [] a.op = "verify" -> <<s, Res(IF State(s, a.m) = "complete" /\ a.same THEN "ok" ELSE "refused")>>
=============================================================================
