------------------------------ MODULE SpendsMC ------------------------------
(* L06. FAM "kinds": every kind of input with every kind of witness, by every checker; "locks": times; "covers": what of *)
(* the transaction and the world changes between signing and checking; "steps": collecting signatures one by one.        *)
EXTENDS Spends, Json, SequencesExt
CONSTANTS FAM, DEEP
VARIABLES s, n, last
AnyD == [f |-> "any"]
Pk(k) == [f |-> "pk", key |-> k]
Pkh(k) == [f |-> "pkh", key |-> k]
Ms(m, ks) == [f |-> "ms", min |-> m, keys |-> ks]
Never == [k |-> "height", n |-> Num(0)]
U(k, d) == [k |-> k, d |-> d, d2 |-> Pk(2), v |-> 1, src |-> 1, lock |-> Never, secret |-> 0]
Times == <<Num(100), Num(120), Num(115)>>
W0 == [utxos |-> <<>>, pool |-> [here |-> TRUE, key |-> Pk(1), bal |-> 10], deleg |-> [here |-> TRUE, key |-> Pk(1)], token |-> [here |-> TRUE, key |-> Pk(1)],
       order |-> [here |-> TRUE, key |-> Pk(1), ia |-> 10, ig |-> 20, a |-> 6, g |-> 12], h |-> 4, t |-> Num(130), times |-> Times, via |-> "chain"]
Tx(ins) == [ty |-> "tx", flags |-> Num(0), ins |-> ins, outs |-> <<1, 2>>]
Ut(i) == [k |-> "utxo", c |-> "", n |-> i]
All == [o |-> "all", any |-> FALSE]
No == [k |-> "no"]
Std(m, wrap, b) == [k |-> "std", mode |-> m, wrap |-> wrap, secret |-> 0, body |-> b]
Sg(k, m) == [key |-> k, m |-> m]
BPk(k, m) == [f |-> "pk", sg |-> Sg(k, m)]
BPkh(k, m) == [f |-> "pkh", pub |-> k, sg |-> Sg(k, m)]
BMs(min, ks, sigs) == [f |-> "ms", min |-> min, keys |-> ks, sigs |-> sigs]
Msg(tx, i, mode) == [w |-> 1, tx |-> tx, i |-> i, mode |-> mode, ver |-> 1]
Chk(how, ver, ws, msgs, tx, wits, i, dst) == [op |-> "check", how |-> how, ver |-> ver, worlds |-> ws, msgs |-> msgs, tx |-> tx, wits |-> wits, i |-> i, dst |-> dst]
(* --------------------------------------------------------------------------------------------------------- kinds *)
Dests == {AnyD, Pk(1), Pkh(1), [f |-> "sh", key |-> 1], Ms(1, <<1>>), Ms(2, <<1, 2, 3>>)}
Bodies == {BPk(1, 1), BPk(2, 1), BPk(1, 0), BPkh(1, 1), BPkh(2, 1), [f |-> "pkh", pub |-> 1, sg |-> Sg(2, 1)], [f |-> "junk"], BMs(1, <<1>>, <<[ix |-> 1, sg |-> Sg(1, 1)]>>),
           BMs(2, <<1, 2, 3>>, <<[ix |-> 1, sg |-> Sg(1, 1)], [ix |-> 3, sg |-> Sg(3, 1)]>>)}
WitsK == {No} \cup {Std(All, w, b) : w \in {"plain"}, b \in Bodies} \cup {[Std(All, w, b) EXCEPT !.secret = c] : w \in {"spend", "refund"}, b \in {BPk(1, 1), BPk(2, 1), BPkh(1, 1), [f |-> "junk"]}, c \in {0, 5}}
  \cup {Std(All, "junk", [f |-> "junk"])}
UKinds == {"transfer", "lock", "pool", "produce", "htlc", "nft"} \cup Dead
UsK == {U(k, d) : k \in UKinds, d \in Dests} \cup {[U("htlc", d) EXCEPT !.d2 = e, !.lock.n = Num(x), !.secret = c] : d \in {Pk(1), Pkh(1)}, e \in {Pk(1), Pk(2), AnyD}, x \in {4, 5}, c \in {0, 5}}
  \cup {[U("pool", Pk(1)) EXCEPT !.d2 = e] : e \in {Pk(1), AnyD}} \cup {[U("produce", d) EXCEPT !.v = 2] : d \in {Pk(1)}}
Cmds == {"mint", "unmint", "locksupply", "freeze", "unfreeze", "uri", "auth", "conclude", "fill"}
InsK == {[k |-> "deleg", c |-> "", n |-> 1]} \cup {[k |-> "cmd", c |-> c, n |-> 1] : c \in Cmds} \cup {[k |-> "ocmd", c |-> c, n |-> 1] : c \in {"fill", "conclude", "freezeorder"}} \cup {Ut(2)}
WKey(d, here) == [W0 EXCEPT !.utxos = <<U("transfer", AnyD)>>, !.deleg = [here |-> here, key |-> d], !.token = [here |-> here, key |-> d], !.order.key = d, !.order.here = here, !.pool.here = here]
Hows == {"full", "locks", "sig"}
NoPool == [W0 EXCEPT !.pool.here = FALSE]
PlainLocks(how, u, wit) == ~(how = "locks" /\ u.k = "htlc" /\ wit.k = "std" /\ wit.wrap = "plain")
Kinds(how, ty, u) ==
  LET m == [Tx(<<Ut(1)>>) EXCEPT !.ty = ty]
      W == [W0 EXCEPT !.utxos = <<u>>]
  IN {Chk(how, 1, <<w>>, <<Msg(m, 1, All)>>, m, <<x>>, 1, d) :
        w \in IF u.k = "produce" THEN {W, [W EXCEPT !.pool.here = FALSE], [W EXCEPT !.pool.key = Pk(2)]} ELSE {W},
        x \in {y \in WitsK : PlainLocks(how, u, y)}, d \in IF how = "sig" THEN {Pk(1), Pk(2), AnyD} ELSE {Pk(1)}}
FamKinds == UNION {Kinds(how, "tx", u) : how \in Hows, u \in UsK} \cup UNION {Kinds("full", "reward", u) : u \in UsK}
  \cup {Chk(how, v, <<w>>, <<[Msg(Tx(<<x>>), 1, All) EXCEPT !.ver = v]>>, Tx(<<x>>), <<wit>>, 1, Pk(2)) : how \in Hows, v \in {0, 1}, x \in InsK,
          w \in {WKey(d, h) : d \in Dests \cup {Pk(2)}, h \in BOOLEAN}, wit \in {No} \cup {Std(All, "plain", b) : b \in Bodies}}
(* --------------------------------------------------------------------------------------------------------- locks *)
Big(x) == N2(x)
LockNs == {<<k, Num(x)>> : k \in {"height", "blocks"}, x \in 0..6} \cup {<<k, Num(x)>> : k \in {"time", "seconds"}, x \in {0, 1, 5, 9, 10, 11, 14, 15, 16, 29, 30, 31, 129, 130, 131}}
  \cup {<<k, Big(x)>> : k \in {"height", "blocks", "time", "seconds"}, x \in {I64, NAdd(I64, <<1>>), U64, NSub(U64, NFromInt(100)), NSub(U64, NFromInt(99)), NSub(U64, NFromInt(115))}}
Ctxs == {<<"chain", 4, Num(130)>>, <<"chain", 4, Num(90)>>, <<"chain", 4, Big(U64)>>} \cup {<<"pool", h, t>> : h \in {4, 5, 7}, t \in {Num(130), Num(115)}}
FamLocks == {LET tx == Tx(<<Ut(1)>>)
                 u == [U(IF c[2] = "lock" THEN "lock" ELSE "htlc", IF c[2] = "lock" THEN AnyD ELSE Pk(1)) EXCEPT !.src = src, !.lock = [k |-> l[1], n |-> l[2]]]
             IN Chk(c[1], 1, <<[W0 EXCEPT !.utxos = <<u>>, !.via = x[1], !.h = x[2], !.t = x[3]]>>, <<Msg(tx, 1, All)>>, tx, <<IF c[2] = "lock" THEN No ELSE Std(All, c[2], BPk(IF c[2] = "spend" THEN 1 ELSE 2, 1))>>, 1, AnyD) :
             c \in {<<"full", "lock">>, <<"full", "refund">>, <<"full", "spend">>, <<"locks", "lock">>, <<"locks", "refund">>, <<"locks", "spend">>, <<"sig", "lock">>}, src \in {-1, 1, 2, 3, 4}, l \in LockNs, x \in Ctxs}
(* -------------------------------------------------------------------------------------------------------- covers *)
Modes == {[o |-> o, any |-> a] : o \in {"all", "none", "single"}, a \in BOOLEAN}
Mixed == <<U("transfer", AnyD), U("transfer", Pk(1)), U("produce", Pk(3)), [U("transfer", AnyD) EXCEPT !.v = 2], [U("transfer", Pk(1)) EXCEPT !.v = 3], U("pool", Pk(1)), [U("htlc", Pk(1)) EXCEPT !.secret = 0]>>
WC == [W0 EXCEPT !.utxos = Mixed]
Free(x) == CASE x.k = "utxo" -> Mixed[x.n].d.f = "any" [] x.k \in {"cmd", "ocmd"} -> x.c = "fill" [] OTHER -> FALSE
OwnC == {Ut(2), Ut(3), Ut(6), Ut(7), [k |-> "deleg", c |-> "", n |-> 1], [k |-> "cmd", c |-> "mint", n |-> 1], [k |-> "cmd", c |-> "conclude", n |-> 1], [k |-> "ocmd", c |-> "conclude", n |-> 1], [k |-> "ocmd", c |-> "freezeorder", n |-> 1]}
TxsC(x) ==      \* the transaction signed, and what becomes of it
  {Tx(<<x>>), Tx(<<x, Ut(1)>>), Tx(<<Ut(1), x>>), Tx(<<Ut(4), x>>), Tx(<<Ut(1), Ut(4), x>>), Tx(<<x, [k |-> "ocmd", c |-> "fill", n |-> 1]>>), Tx(<<x, [k |-> "ocmd", c |-> "fill", n |-> 2]>>), Tx(<<x, [k |-> "cmd", c |-> "fill", n |-> 1]>>)}
  \cup {[Tx(<<x>>) EXCEPT !.outs = o] : o \in {<<>>, <<1>>, <<2, 1>>, <<1, 2, 3>>, <<3, 2>>, <<1, 3>>}} \cup {[Tx(<<Ut(1), x>>) EXCEPT !.outs = o] : o \in {<<>>, <<1>>, <<2, 1>>, <<1, 2, 3>>, <<3, 2>>, <<1, 3>>}} \cup {[Tx(<<x>>) EXCEPT !.flags = Num(1)]}
At(tx, x) == CHOOSE i \in Idx(tx.ins) : tx.ins[i] = x
Swap(x) == CASE x.k = "utxo" -> {[x EXCEPT !.n = 5]} [] x.k = "ocmd" -> {[x EXCEPT !.c = IF x.c = "conclude" THEN "freezeorder" ELSE "conclude"]} [] OTHER -> {[x EXCEPT !.n = 2]}
WorldsC == {WC, [WC EXCEPT !.pool.bal = 11], [WC EXCEPT !.order.a = 5], [WC EXCEPT !.order.g = 11], [WC EXCEPT !.order.ia = 11], [WC EXCEPT !.order.ig = 21], [WC EXCEPT !.pool.key = Pk(2)],
            [WC EXCEPT !.utxos[1].v = 9], [WC EXCEPT !.utxos[2].v = 9], [WC EXCEPT !.utxos[3].d = Pk(9)], [WC EXCEPT !.utxos[6].d2 = Pk(9)], [WC EXCEPT !.utxos[7].secret = 9], [WC EXCEPT !.utxos[7].d2 = Pk(9)], [WC EXCEPT !.utxos[7].lock.n = Num(1)], [WC EXCEPT !.h = 4, !.t = Num(131)]}
Bring(tx, x, m, msg) == [j \in Idx(tx.ins) |-> IF tx.ins[j] = x THEN Std(m, IF x = Ut(7) THEN "spend" ELSE "plain", BPk(1, 1)) ELSE No]
CovAct(how, v0, v1, w, t0, x0, m0, t1, x1, m1) ==
  Chk(how, v1, <<WC, w>>, <<[w |-> 2, tx |-> t0, i |-> At(t0, x0), mode |-> m0, ver |-> v0]>>, t1, <<>> \o Bring(t1, x1, m1, 1), At(t1, x1), Pk(1))
Home(x) == {Tx(<<x, Ut(1)>>), [Tx(<<Ut(1), x>>) EXCEPT !.outs = <<1, 2>>]}
FamCovers == UNION {{CovAct("full", 1, 1, WC, t0, x, m, t1, y, m) : t0 \in Home(x), m \in Modes, t1 \in TxsC(y)} : <<x, y>> \in UNION {{<<x, y>> : y \in {x} \cup Swap(x)} : x \in OwnC}}
  \cup UNION {{CovAct("full", v[1], v[2], w, t, x, m, t, x, m) : t \in {Tx(<<x, Ut(1)>>), Tx(<<Ut(1), x>>), Tx(<<x, [k |-> "ocmd", c |-> "fill", n |-> 1]>>), Tx(<<[k |-> "cmd", c |-> "fill", n |-> 1], x>>)}, w \in WorldsC, m \in Modes, v \in {<<0, 0>>, <<1, 1>>, <<0, 1>>, <<1, 0>>}} : x \in OwnC}
  \cup UNION {{CovAct(how, 1, 1, WC, Tx(<<x>>), x, m0, Tx(<<x>>), x, m1) : how \in {"full", "sig"}, m0 \in Modes, m1 \in Modes} : x \in OwnC}
  \cup {CovAct("full", 1, 1, WC, [Tx(<<Ut(3)>>) EXCEPT !.ty = ty, !.outs = o], Ut(3), m, [Tx(<<Ut(3)>>) EXCEPT !.ty = uy], Ut(3), m) : ty \in {"tx", "reward"}, uy \in {"tx", "reward"}, o \in {<<1, 2>>, <<1>>}, m \in Modes}
  \cup {[CovAct("full", 1, 1, WC, Tx(<<Ut(3)>>), Ut(3), m, [Tx(<<Ut(3)>>) EXCEPT !.ty = "reward"], Ut(3), m) EXCEPT !.msgs[1].tx.ty = ty, !.msgs[1].w = w, !.wits[1].body.sg.key = 3] : ty \in {"tx", "reward"}, m \in Modes, w \in {1, 2}}
(* ------------------------------------------------------------------------------------------------------ multisig *)
Sets == {<<1>>, <<1, 2>>, <<1, 2, 3>>, <<1, 1>>, <<>>}
MsBodies == {BMs(min, ks, <<>> \o q) : min \in 0..3, ks \in Sets, q \in
   {<<>>} \cup {<<[ix |-> i, sg |-> x]>> : i \in 1..4, x \in {Sg(1, 1), Sg(2, 1)}} \cup {<<[ix |-> 1, sg |-> x], [ix |-> i, sg |-> y]>> : i \in 2..4, x \in {Sg(1, 1), Sg(2, 1)}, y \in {Sg(1, 1), Sg(2, 1), Sg(2, 0)}}
   \cup {<<[ix |-> 1, sg |-> Sg(1, 1)], [ix |-> 2, sg |-> Sg(2, 1)], [ix |-> 3, sg |-> y]>> : y \in {Sg(3, 1), Sg(3, 0), Sg(1, 1)}}}
FamMulti == {LET tx == Tx(<<Ut(1)>>) IN Chk("full", 1, <<[W0 EXCEPT !.utxos = <<U("transfer", d)>>]>>, <<Msg(tx, 1, All)>>, tx, <<Std(All, "plain", b)>>, 1, AnyD) :
             d \in {Ms(1, <<1>>), Ms(1, <<1, 2>>), Ms(2, <<1, 2>>), Ms(2, <<1, 1>>), Ms(2, <<1, 2, 3>>), Ms(3, <<1, 2, 3>>), Ms(0, <<1>>), Ms(1, <<>>), Ms(2, <<1>>), Ms(3, <<1, 2>>)}, b \in MsBodies}
  \cup {LET tx == Tx(<<Ut(1)>>) ks == [i \in 1..k |-> i] d == Ms(m, <<>> \o ks) IN
        Chk("full", 1, <<[W0 EXCEPT !.utxos = <<U("transfer", d)>>]>>, <<Msg(tx, 1, All)>>, tx, <<Std(All, "plain", BMs(m, <<>> \o ks, <<>> \o [i \in 1..m |-> [ix |-> i, sg |-> Sg(i, 1)]]))>>, 1, AnyD) : m \in {1, 2, 31, 32, 33}, k \in {31, 32, 33}}
(* --------------------------------------------------------------------------------------------------------- steps *)
Steps == {[op |-> "sign", ix |-> i, key |-> k, m |-> m] : i \in 1..3, k \in 1..3, m \in {1, 2}} \cup {[op |-> "put", ix |-> i, key |-> k, m |-> m] : i \in 1..4, k \in {1, 2}, m \in {1}}
  \cup {[op |-> "verify", m |-> m, same |-> x] : m \in {1, 2}, x \in BOOLEAN}
Starts == {[op |-> "challenge", min |-> m, keys |-> ks] : m \in 0..3, ks \in Sets \cup {<<2, 1, 2>>}}
Acts == CASE FAM = "kinds" -> FamKinds [] FAM = "locks" -> FamLocks [] FAM = "covers" -> FamCovers [] FAM = "multi" -> FamMulti [] FAM = "steps" -> IF n = 0 THEN Starts ELSE Steps
Pure == FAM # "steps"
Init == s = MS0 /\ n = 0 /\ last = <<>>
Next == \/ /\ Pure /\ n = 0 /\ n' = 1 /\ UNCHANGED <<s, last>>
           /\ \A a \in Acts : PrintT(ToJson([s |-> 0, a |-> a, o |-> SRes(s, a)[2], t |-> 0]))
        \/ /\ ~Pure /\ n < DEEP
           /\ \E a \in Acts : LET r == SRes(s, a) IN
                /\ s' = r[1] /\ n' = n + 1 /\ last' = <<a, s, r[2]>>
                /\ PrintT(ToJson([s |-> <<s, n>>, a |-> a, o |-> r[2], t |-> <<s', n'>>]))
Spec == Init /\ [][Next]_<<s, n, last>>
ViewOf == <<s, n>>
(* nothing is spent without the keys: an accepted collection holds as many right signatures over this message as asked for, each at its own position *)
OnlyComplete == last # <<>> /\ last[1].op = "verify" /\ last[3].k = "ok" =>
  LET c == last[2] IN /\ GoodChallenge(c.min, c.keys) /\ Cardinality({j \in Idx(c.sigs) : c.sigs[j].m = last[1].m /\ c.sigs[j].key = c.keys[c.sigs[j].ix]}) = c.min
(* what signing produced is accepted: a collection made by signing only, once complete, verifies for its message *)
SignedIsGood == last # <<>> /\ last[1].op = "sign" /\ last[3].k = "complete" => SRes(s, [op |-> "verify", m |-> last[1].m, same |-> TRUE])[2].k = "ok"
(* refused signing changes nothing, and a finished collection takes no more *)
NoMore == last # <<>> /\ last[1].op = "sign" /\ (last[3].k = "refused" \/ Len(last[2].sigs) >= last[2].min) => s = last[2]
=============================================================================
