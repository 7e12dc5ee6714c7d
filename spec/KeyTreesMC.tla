----------------------------- MODULE KeyTreesMC -----------------------------
(* K01: all derivation histories over few seeds and child numbers.                                                       *)
EXTENDS KeyTrees, Json
CONSTANTS MAXD, RICH
VARIABLE k
Nums == {[i |-> 0, h |-> FALSE], [i |-> 0, h |-> TRUE], [i |-> 2147483647, h |-> FALSE]} \cup (IF RICH THEN {[i |-> 1, h |-> TRUE]} ELSE {})
Paths == UNION {[1..n -> Nums] : n \in 0..MAXD}
Seeds == {<<>>, <<0>>, <<1, 2>>}
Acts == {[op |-> "master", kind |-> x, seed |-> s] : x \in {"key", "vrf"}, s \in Seeds}
  \cup {[op |-> "child", i |-> c.i, h |-> c.h] : c \in Nums} \cup {[op |-> "derive", path |-> p] : p \in Paths} \cup {[op |-> "neuter"], [op |-> "codec"]}
Init == k = NoKey
Next == \E a \in Acts :
  /\ KAllowed(k, a) /\ (a.op = "master" => k.kind = "none")
  /\ LET r == KRes(k, a) IN
     /\ Len(r[1].path) <= MAXD
     /\ k' = r[1]
     /\ PrintT(ToJson([s |-> k, a |-> a, o |-> r[2], t |-> r[1]]))
Spec == Init /\ [][Next]_k
(* nobody gets a private key, or a hardened descendant, out of a public key *)
OneWay == [][k.pub => k'.pub /\ \A j \in (Len(k.path) + 1)..Len(k'.path) : ~k'.path[j].h]_k
OnlyDown == [][k.kind # "none" => IsPrefix(k.path, k'.path) /\ k.seed = k'.seed]_k
(* deriving in two ways that end at the same path is deriving the same key *)
Confluent == \A p \in Paths : LET r == KRes(k, [op |-> "derive", path |-> p]) IN
  k.kind # "none" /\ r[2].k = "ok" =>
    LET c == p[Len(k.path) + 1]
        s == KRes(k, [op |-> "child", i |-> c.i, h |-> c.h])
        t == IF Len(p) = Len(k.path) + 1 THEN s ELSE KRes(s[1], [op |-> "derive", path |-> p])
    IN t = r
NeuterCommutes == \A c \in Nums : k.kind # "none" /\ ~k.pub /\ ~c.h =>
  LET ch == [op |-> "child", i |-> c.i, h |-> c.h] n == [op |-> "neuter"] IN KRes(KRes(k, ch)[1], n) = KRes(KRes(k, n)[1], ch)
=============================================================================
