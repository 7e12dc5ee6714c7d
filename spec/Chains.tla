------------------------------- MODULE Chains -------------------------------
(* A node's chainstate: blocks of a world (a tree given in advance), which of them it knows and holds for good or bad,    *)
(* the best chain, blocks that wait for their parents, and the ledger that follows from the best chain.                   *)
(* A world w: depth (limit of reorganisations), ck (a block that is a checkpoint, or 0), blocks[b]: p parent (0 genesis), *)
(* txs, flaw, ts. A state s: best, st[b] (0 unknown, 1 good and kept, 2 bad and kept, 3 bad and not kept), minh (forks     *)
(* below are refused), orph, now. The ledger is a set of <<fact, height>>, transactions take facts and give facts.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Tx0 == [need |-> {}, deny |-> {}, take |-> {}, give |-> {}, extra |-> {}, when |-> <<"always">>]
Genesis == {"g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8"}
(* extra: inputs that are not coins; two transactions of one block must not share an input *)
TxDef ==
  [ split  |-> [Tx0 EXCEPT !.take = {"g0"}, !.give = {"a0", "a1"}],
    alt    |-> [Tx0 EXCEPT !.take = {"g0"}, !.give = {"b0"}],
    a0c    |-> [Tx0 EXCEPT !.take = {"a0"}, !.give = {"c0"}],
    a0g1   |-> [Tx0 EXCEPT !.take = {"a0", "g1"}, !.give = {"d0"}],
    b0e    |-> [Tx0 EXCEPT !.take = {"b0"}, !.give = {"e0"}],
    over   |-> [Tx0 EXCEPT !.take = {"g1"}, !.when = <<"never">>],
    lockh  |-> [Tx0 EXCEPT !.take = {"g6"}, !.give = {"r0"}],
    openh  |-> [Tx0 EXCEPT !.take = {"r0"}, !.give = {"s0"}, !.when = <<"height", 3>>],
    lockn  |-> [Tx0 EXCEPT !.take = {"g7"}, !.give = {"t0"}],
    openn  |-> [Tx0 EXCEPT !.take = {"t0"}, !.give = {"v0"}, !.when = <<"age", 2>>],
    lockt  |-> [Tx0 EXCEPT !.take = {"g8"}, !.give = {"w0"}],
    opent  |-> [Tx0 EXCEPT !.take = {"w0"}, !.give = {"x0"}, !.when = <<"time", 20>>],
    pool   |-> [Tx0 EXCEPT !.take = {"g2"}, !.give = {"p0", "h0", "pool"}],
    deleg  |-> [Tx0 EXCEPT !.need = {"pool"}, !.take = {"h0"}, !.give = {"h1", "deleg"}],
    stake  |-> [Tx0 EXCEPT !.need = {"deleg", "pool"}, !.take = {"h1"}, !.give = {"h2", "staked1000"}],
    wd     |-> [Tx0 EXCEPT !.need = {"deleg"}, !.take = {"staked1000"}, !.give = {"u0", "staked400", "dn0"}, !.extra = {"wd"}],
    decom  |-> [Tx0 EXCEPT !.take = {"p0", "pool"}, !.give = {"q0"}],
    issue  |-> [Tx0 EXCEPT !.take = {"g3"}, !.give = {"j0", "token"}],
    mint   |-> [Tx0 EXCEPT !.need = {"token"}, !.take = {"j0"}, !.give = {"k0", "j1", "supply1000", "tn0"}, !.extra = {"mint"}],
    freeze |-> [Tx0 EXCEPT !.take = {"j1", "tn0"}, !.give = {"j2", "tn1", "frozen"}, !.extra = {"freeze"}],
    thaw   |-> [Tx0 EXCEPT !.take = {"j2", "tn1", "frozen"}, !.give = {"j3", "tn2"}, !.extra = {"thaw"}],
    ktrans |-> [Tx0 EXCEPT !.deny = {"frozen"}, !.take = {"k0"}, !.give = {"k1", "k2"}],
    order  |-> [Tx0 EXCEPT !.deny = {"frozen"}, !.take = {"k0"}, !.give = {"ord", "ask500", "give1000"}],
    fill   |-> [Tx0 EXCEPT !.deny = {"frozen"}, !.need = {"ord"}, !.take = {"g4", "ask500", "give1000"}, !.give = {"l0", "m0", "ask400", "give800"}],
    conclp |-> [Tx0 EXCEPT !.deny = {"frozen"}, !.take = {"ord", "ask400", "give800"}, !.give = {"n0", "n1"}, !.extra = {"conclude"}],
    conclf |-> [Tx0 EXCEPT !.deny = {"frozen"}, !.take = {"ord", "ask500", "give1000"}, !.give = {"n2"}, !.extra = {"conclude"}],
    nft    |-> [Tx0 EXCEPT !.take = {"g5"}, !.give = {"o0", "o1", "nftok"}] ]
State == {"pool", "deleg", "staked1000", "staked400", "dn0", "token", "supply1000", "tn0", "tn1", "tn2", "frozen", "ord", "ask500", "ask400", "give1000", "give800", "nftok"}
Coins(S) == S \ State
Inputs(t) == Coins(TxDef[t].take) \cup TxDef[t].extra
Names(F) == {f[1] : f \in F}
Reward(b) == "reward" \o ToString(b)
(* facts that follow from others *)
Show(F) == LET N == Names(F) IN N
  \cup (IF "pool" \in N THEN {IF "staked1000" \in N THEN "bal41000" ELSE IF "staked400" \in N THEN "bal40400" ELSE "bal40000"} ELSE {})
  \cup (IF "ord" \in N THEN {"listed"} ELSE {})

(* the tree; Full adds to a world what follows from it: up[b] a block and its ancestors without genesis, the block first, *)
(* anc[b] the same as a set with genesis, led[b] the ledger after it (an entry 1 higher than the block, the first for 0)  *)
N(w) == Len(w.blocks)
Par(w, b) == w.blocks[b].p
RECURSIVE UpOf(_, _)
UpOf(w, b) == IF b = 0 THEN <<>> ELSE <<b>> \o UpOf(w, Par(w, b))
Up(w, b) == IF b = 0 THEN <<>> ELSE w.up[b]
Height(w, b) == Len(Up(w, b))
Anc(w, b) == w.anc[b + 1]
Sub(w, b) == {c \in 1..N(w) : b \in Anc(w, c)}      \* a block and its descendants
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Lca(w, a, b) == LET S == Anc(w, a) \cap Anc(w, b) IN CHOOSE x \in S : \A y \in S : Height(w, y) <= Height(w, x)
(* median of the times of a block and up to ten before it *)
RECURSIVE Times(_, _)
Times(w, b) == IF b = 0 THEN <<0>> ELSE <<w.blocks[b].ts>> \o Times(w, Par(w, b))
RECURSIVE Sorted(_)
Sorted(q) == IF Len(q) < 2 THEN q ELSE
  LET m == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i] <= q[j] IN <<q[m]>> \o Sorted(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
Past(w, b) == LET t == Times(w, b)  q == Sorted(IF Len(t) > 11 THEN SubSeq(t, 1, 11) ELSE t) IN q[(Len(q) \div 2) + 1]

(* the ledger: facts after a block with all its ancestors, or nothing: <<FALSE, {}>> *)
Due(t, F, h, past) == LET x == TxDef[t].when IN
  CASE x[1] = "always" -> TRUE [] x[1] = "never" -> FALSE [] x[1] = "height" -> h >= x[2] [] x[1] = "time" -> past >= x[2]
    [] x[1] = "age" -> \A f \in F : f[1] \in TxDef[t].take => h - f[2] >= x[2]
RECURSIVE Carry(_, _, _, _, _)
Carry(F, txs, i, h, past) ==
  IF i > Len(txs) THEN <<TRUE, F>>
  ELSE LET d == TxDef[txs[i]]  M == Names(F) IN
       IF (d.need \cup d.take) \subseteq M /\ d.deny \cap M = {} /\ Due(txs[i], F, h, past)
       THEN Carry({f \in F : f[1] \notin d.take} \cup {<<g, h>> : g \in d.give}, txs, i + 1, h, past)
       ELSE <<FALSE, {}>>
Root == <<TRUE, {<<g, 0>> : g \in Genesis}>>
After(w, L, b) ==
  LET k == w.blocks[b]  h == Height(w, b) IN
  IF ~L[1] \/ k.flaw = "reward" THEN <<FALSE, {}>>
  ELSE LET r == Carry(L[2], k.txs, 1, h, Past(w, Par(w, b))) IN
       IF r[1] THEN <<TRUE, r[2] \cup {<<Reward(b), h>>}>> ELSE r
RECURSIVE Ledgers(_, _)
Ledgers(w, ls) == IF Len(ls) > N(w) THEN ls ELSE Ledgers(w, Append(ls, After(w, ls[Par(w, Len(ls)) + 1], Len(ls))))
Full(x) ==
  LET w1 == [depth |-> x.depth, ck |-> x.ck, now |-> x.now, blocks |-> x.blocks, up |-> <<>> \o [b \in 1..Len(x.blocks) |-> UpOf(x, b)]]
      w2 == [f \in DOMAIN w1 \cup {"anc", "led"} |->
             IF f = "anc" THEN <<{0}>> \o [b \in 1..Len(x.blocks) |-> {w1.up[b][i] : i \in 1..Len(w1.up[b])} \cup {0}]
             ELSE IF f = "led" THEN <<>> ELSE w1[f]]
  IN [w2 EXCEPT !.led = Ledgers(w2, <<Root>>)]
Ledger(w, b) == w.led[b + 1]
Sound(w, b) == Ledger(w, b)[1]

(* what a block whose parent is known is held for, without regard to its ledger: reasons for a refusal *)
Twice(txs) == \E i, j \in 1..Len(txs) : i < j /\ Inputs(txs[i]) \cap Inputs(txs[j]) # {}
Reasons(w, s, b) == LET k == w.blocks[b]  p == k.p IN
  (IF p # 0 /\ s.st[p] # 1 THEN {"bad"} ELSE {})
  \cup (IF w.ck # 0 /\ Height(w, b) >= Height(w, w.ck) /\ w.ck \notin Anc(w, b) THEN {"bad"} ELSE {})
  \cup (IF Height(w, Lca(w, p, s.best)) < s.minh THEN {"bad"} ELSE {})
  \cup (IF k.ts < Past(w, p) THEN {"bad"} ELSE {})
  \cup (IF k.ts > s.now + 30 THEN {"future"} ELSE {})
  \cup (IF k.flaw = "merkle" \/ Twice(k.txs) THEN {"bad"} ELSE {})
Spoil(w, s, x) == [s EXCEPT !.st = <<>> \o [c \in 1..N(w) |-> IF c \in Sub(w, x) /\ @[c] = 1 THEN 2 ELSE @[c]]]
Deeper(w, s) == [s EXCEPT !.minh = Max({@, Height(w, s.best) - w.depth})]
(* the first block on the way to b whose ledger fails, 0 if none *)
Fault(w, b) == LET q == Up(w, b)  B == {i \in 1..Len(q) : ~Sound(w, q[i])} IN IF B = {} THEN 0 ELSE q[Max(B)]

(* one block with a known parent: the set of <<state, result>> *)
Knows(s, b) == b = 0 \/ s.st[b] # 0
Try(w, s, b) ==
  IF ~Knows(s, Par(w, b)) THEN {<<[s EXCEPT !.orph = @ \cup {b}], "orphan">>}      \* its parent was not remembered
  ELSE IF s.st[b] # 0 THEN {<<s, "refused">>}
  ELSE LET R == Reasons(w, s, b)  bad == [s EXCEPT !.st[b] = 3] IN
  IF R # {} THEN {<<IF r = "bad" THEN bad ELSE s, "refused">> : r \in R}
  ELSE IF Height(w, b) <= Height(w, s.best) THEN {<<Deeper(w, [s EXCEPT !.st[b] = 1]), "side">>}
  ELSE IF Fault(w, b) # 0 THEN {<<Spoil(w, bad, Fault(w, b)), "refused">>}
  ELSE {<<Deeper(w, [s EXCEPT !.st[b] = 1, !.best = b]), "tip">>}
Children(w, s, b) == {c \in s.orph : Par(w, c) = b}
(* after a refusal blocks that wait below may be given up *)
RECURSIVE Below(_, _, _)             \* those waiting for b, for those, and so on
Below(w, s, S) == LET T == S \cup {c \in s.orph : Par(w, c) \in S} IN IF T = S THEN S ELSE Below(w, s, T)
Shed(w, s, b) == {s, [s EXCEPT !.orph = @ \ (Below(w, s, {b}) \ {b})]}
(* blocks that waited: x[1] the state, x[2] blocks to be tried, x[3] blocks whose children come next *)
One(w, x) == LET s == x[1] IN
  IF x[2] # {} THEN UNION {UNION {{<<t, x[2] \ {y}, x[3]>> : t \in IF r[2] = "refused" THEN Shed(w, r[1], y) ELSE {r[1]}} : r \in Try(w, s, y)} : y \in x[2]}
  ELSE IF x[3] = {} THEN {x}
  ELSE UNION {LET C == Children(w, s, y) IN {<<[s EXCEPT !.orph = @ \ C], C, (x[3] \ {y}) \cup C>>} : y \in x[3]}
RECURSIVE Adopt(_, _)
Adopt(w, X) == IF \A x \in X : x[2] = {} /\ x[3] = {} THEN {x[1] : x \in X} ELSE Adopt(w, UNION {One(w, x) : x \in X})
Process(w, s, b, local) ==
  IF ~Knows(s, Par(w, b)) THEN IF local THEN {<<[s EXCEPT !.orph = @ \cup {b}], "orphan">>} ELSE {<<s, "refused">>}
  ELSE UNION {IF r[2] = "refused" THEN {<<t, "refused">> : t \in Shed(w, r[1], b)}
              ELSE {<<t, IF t.best # s.best THEN "tip" \o ToString(t.best) ELSE "side">> : t \in Adopt(w, {<<r[1], {}, {b}>>})} : r \in Try(w, s, b)}
(* the best of the other chains, if it is better *)
Heads(w, s) == {b \in 1..N(w) : s.st[b] = 1 /\ Height(w, b) > Height(w, s.best) /\ Height(w, Lca(w, b, s.best)) >= s.minh}
RECURSIVE Search(_, _)
Search(w, s) == LET H == Heads(w, s)  T == {b \in H : \A c \in H : Height(w, c) <= Height(w, b)} IN
  IF H = {} THEN {s}
  ELSE UNION {IF Fault(w, b) = 0 THEN {[s EXCEPT !.best = b]} ELSE Search(w, Spoil(w, s, Fault(w, b))) : b \in T}
Invalidate(w, s, b) ==
  IF s.st[b] = 0 THEN {<<s, "refused">>}
  ELSE IF b \notin Anc(w, s.best) THEN {<<t, "ok">> : t \in Shed(w, Spoil(w, s, b), b)}
  ELSE IF Height(w, b) <= s.minh THEN {<<s, "refused">>}
  ELSE {<<t, "ok">> : t \in UNION {Search(w, x) : x \in Shed(w, Spoil(w, [s EXCEPT !.best = Par(w, b)], b), b)}}
Revive(w, s, b) ==
  IF s.st[b] = 0 THEN {<<s, "refused">>}
  ELSE LET good == Par(w, b) = 0 \/ s.st[Par(w, b)] = 1
           t == [s EXCEPT !.st = <<>> \o [c \in 1..N(w) |-> IF c \notin Sub(w, b) THEN @[c] ELSE IF @[c] = 3 THEN 0 ELSE IF @[c] = 2 /\ good THEN 1 ELSE @[c]]]
       IN {<<x, "ok">> : x \in Search(w, t)}
CRes(w, s, a) ==
  CASE a.op = "process" -> Process(w, s, a.b, a.src = "local")
    [] a.op = "check" -> {<<s, IF s.st[a.b] = 1 \/ (s.st[a.b] = 0 /\ Knows(s, Par(w, a.b)) /\ Reasons(w, s, a.b) = {}) THEN "ok" ELSE "refused">>}
    [] a.op = "invalidate" -> Invalidate(w, s, a.b)
    [] a.op = "revive" -> Revive(w, s, a.b)
    [] a.op = "tick" -> {<<[s EXCEPT !.now = a.now], "ok">>}
    [] a.op = "reopen" -> {<<[s EXCEPT !.orph = {}], "ok">>}
CS0(w) == [best |-> 0, st |-> <<>> \o [b \in 1..N(w) |-> 0], minh |-> 0, orph |-> {}, now |-> w.now]
Events(w, s, t) == IF s.best = t.best THEN <<>> ELSE <<[b |-> t.best, h |-> Height(w, t.best)]>>

(* what is promised of every state *)
Upright(w, s) ==
  /\ \A b \in 1..N(w) : s.st[b] = 1 => Par(w, b) = 0 \/ s.st[Par(w, b)] = 1          \* nothing good upon something bad
  /\ \A b \in 1..N(w) : s.st[b] = 2 => Par(w, b) = 0 \/ s.st[Par(w, b)] \in {1, 2}
  /\ \A b \in Anc(w, s.best) \ {0} : s.st[b] = 1
  /\ Sound(w, s.best)
  /\ \A b \in s.orph : s.st[b] # 1
(* no good chain with more work that could be taken *)
Heaviest(w, s) == \A b \in Heads(w, s) : ~Sound(w, b)
=============================================================================
