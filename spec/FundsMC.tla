------------------------------ MODULE FundsMC ------------------------------
(* All transactions with at most NI inputs and NU outputs of the menus, in a fixed world. Amounts are whole coins.       *)
EXTENDS Funds, Json, Sequences, Integers
CONSTANTS NI, NU, MENU, MATS, VERS
VARIABLES s, done
A(op, act) == [op |-> op, act |-> act]
Setup == <<A("p", [op |-> "create", p |-> 1, key |-> 1, pledge |-> 30, cost |-> 0, mpt |-> 0]), A("p", [op |-> "cdel", p |-> 1, d |-> 1, key |-> 2]),
           A("p", [op |-> "delegate", d |-> 1, v |-> 20]),
           A("k", [op |-> "issue", id |-> 1, kind |-> "fixed", limit |-> 10, freezable |-> TRUE, auth |-> 1, uri |-> 1]), A("k", [op |-> "mint", id |-> 1, v |-> 4]),
           A("o", [op |-> "create", id |-> 1, key |-> 1, askc |-> 0, givec |-> 1, ask |-> 10, give |-> 20]), A("o", [op |-> "fill", id |-> 1, ver |-> 1, v |-> 4])>>
RECURSIVE Made(_, _)
Made(w, q) == IF q = <<>> THEN w ELSE Made(FRes(w, Head(q))[1], Tail(q))
World == Made(FV0, Setup)
Coin(v) == [k |-> "out", f |-> "transfer", c |-> 0, v |-> v]
Tok(v) == [k |-> "out", f |-> "transfer", c |-> 1, v |-> v]
(* menus *)
MainIn == {Coin(25), Coin(60), Tok(3), [k |-> "pool", p |-> 1, f |-> "create"], [k |-> "spend", d |-> 1, v |-> 15], [k |-> "spend", d |-> 1, v |-> 5], [k |-> "fill", id |-> 1, v |-> 2, via |-> "new"], [k |-> "conclude", id |-> 1, via |-> "new"],
           [k |-> "mint", id |-> 1, v |-> 3]}
MainOut == {Coin(25), Coin(30), Tok(3), Tok(6), [k |-> "lock", f |-> "lock", c |-> 0, v |-> 15, kind |-> "blocks", n |-> 7], [k |-> "lock", f |-> "lock", c |-> 0, v |-> 30, kind |-> "blocks", n |-> 8],
            [k |-> "lock", f |-> "lock", c |-> 0, v |-> 15, kind |-> "height", n |-> 9], [k |-> "stake", v |-> 40], [k |-> "data"]}
RestIn == {Coin(100), Coin(50), [k |-> "out", f |-> "lock", c |-> 0, v |-> 20], [k |-> "out", f |-> "htlc", c |-> 1, v |-> 2], [k |-> "nft", c |-> 2], [k |-> "pool", p |-> 1, f |-> "produce"], [k |-> "pool", p |-> 2, f |-> "create"],
           [k |-> "missing"], [k |-> "freezeorder", id |-> 1], [k |-> "fill", id |-> 1, v |-> 3, via |-> "old"], [k |-> "fill", id |-> 2, v |-> 0, via |-> "new"], [k |-> "conclude", id |-> 1, via |-> "old"], [k |-> "conclude", id |-> 2, via |-> "new"], [k |-> "spend", d |-> 1, v |-> 21], [k |-> "spend", d |-> 2, v |-> 0],
           [k |-> "mint", id |-> 1, v |-> 7], [k |-> "mint", id |-> 2, v |-> 1]}
  \cup {[k |-> "bad", f |-> f] : f \in {"burn", "data", "cdel", "issue", "order"}} \cup {[k |-> o, id |-> 1] : o \in {"unmint", "locksupply", "freeze", "unfreeze", "auth", "uri"}}
RestOut == {Coin(20), Coin(50), Coin(0), [k |-> "out", f |-> "burn", c |-> 0, v |-> 20], [k |-> "out", f |-> "htlc", c |-> 1, v |-> 2], [k |-> "out", f |-> "burn", c |-> 2, v |-> 1], [k |-> "lock", f |-> "lock", c |-> 1, v |-> 2, kind |-> "blocks", n |-> 9], [k |-> "delegate", v |-> 20], [k |-> "produce"], [k |-> "cdel"],
            [k |-> "issue"], [k |-> "nft"], [k |-> "order", c |-> 1, v |-> 2], [k |-> "order", c |-> 0, v |-> 20]}
  \cup {[k |-> "lock", f |-> "lock", c |-> 0, v |-> 20, kind |-> d, n |-> n] : d \in {"blocks", "seconds", "height", "time"}, n \in {0, 6, 7}}
TheIn == IF MENU = "main" THEN MainIn ELSE RestIn
TheOut == IF MENU = "main" THEN MainOut ELSE RestOut
Lists(S, n) == UNION {[1..k -> S] : k \in 0..n}
Txs == {[op |-> "txs", ver |-> v, mat |-> m, txs |-> <<[ins |-> <<>> \o i, outs |-> <<>> \o o]>>] : i \in Lists(TheIn, NI), o \in Lists(TheOut, NU), m \in MATS, v \in VERS}
Init == s = World /\ done = 0
Show(a) == PrintT(ToJson([s |-> <<done>>, a |-> a, o |-> FRes(s, a)[2], t |-> <<done>>]))
Next == /\ done = 0 /\ done' = 1 /\ UNCHANGED s
        /\ \A a \in Txs : Show(a)
(* no value is created: whatever is accepted, per kind of money, takes no more than was brought; and coins that must stay locked do stay *)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Sound == done = 1 => \A a \in Txs : LET r == JudgeAll(s, a.txs, a.ver, a.mat)
                                        f == Ins(s, a.txs[1].ins, a.ver, a.mat)
                                        g == Outs(a.txs[1].outs, a.ver)
  IN /\ r.ok => /\ r.held >= 0 /\ \A c \in 1..NK + 1 : r.free[c] >= 0
                /\ f.free[1] + f.held = r.free[1] + r.held + g.free[1] + Sum([i \in 1..Len(g.locks) |-> g.locks[i][2]])
                /\ \A c \in 2..NK + 1 : f.free[c] = r.free[c] + g.free[c]
     (* refused only if no way of dealing the held coins to the locked outputs works *)
     /\ (f.ok /\ g.ok) => (r.ok <=> /\ \A c \in 2..NK + 1 : g.free[c] <= f.free[c]
                                    /\ \E x \in 0..f.held : x <= Late(g, a.mat) /\ f.free[1] >= g.free[1] + Early(g, a.mat) + Late(g, a.mat) - x)
Spec == Init /\ [][Next]_<<s, done>>
=============================================================================
