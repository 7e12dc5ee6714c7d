------------------------------- MODULE SealsMC -------------------------------
(* K02. FAM 1: one sealed text, every history of alterations and attempts to open it; FAM 2: three parties (two of them  *)
(* the same person); FAM 3: passwords; FAM 4: wrapped values.                                                            *)
EXTENDS Seals, Json
CONSTANTS FAM, N, RICH
VARIABLES s, n, last
K1 == <<<<0, 32>>>>
K2 == <<<<0, 31>>, <<1, 1>>>>
Keys == {K1, K2, <<<<0, 31>>>>, <<<<0, 33>>>>}
Msg == <<<<65, 2>>>>
Ds == {<<>>, <<<<0, 1>>>>, <<<<1, 1>>>>}
Flips == {[op |-> "flip", c |-> 0, at |-> at, mask |-> m] : at \in {0, 23, 24, 25, 26, 41}, m \in {1, 128}}
Shape == {[op |-> "cut", c |-> 0, n |-> k] : k \in {0, 1, 16, 18, 41}} \cup {[op |-> "behead", c |-> 0, n |-> k] : k \in {1, 24}} \cup {[op |-> "extend", c |-> 0, b |-> 0]}
Cfgs == {[m |-> m, t |-> t, p |-> p, len |-> x, salt |-> y] : m \in {8, 15, 16}, t \in {1, 2}, p \in {1, 2}, x \in {3, 4, 32}, y \in {7, 8}}
Pws == {<<>>, <<<<0, 1>>>>, <<<<97, 3>>>>}
First ==
  CASE FAM = 1 -> {[op |-> "seal", c |-> 0, key |-> k, ad |-> d, m |-> Msg] : k \in Keys, d \in Ds} \cup {[op |-> "seal", c |-> 0, key |-> K1, noad |-> 1, ad |-> "none", m |-> <<>>]}
    [] FAM = 2 -> {[op |-> "party", i |-> 0, seed |-> 7]}
    [] FAM = 3 -> {[op |-> "hash", r |-> 0, pw |-> p, cfg |-> c] : p \in Pws, c \in Cfgs}
    [] FAM = 4 -> {[op |-> "wrap", c |-> 0, key |-> k, x |-> 258] : k \in {K1, K2}} \cup {[op |-> "wrap", c |-> 0, plain |-> 1, key |-> "none", x |-> 5]}
Acts ==
  CASE FAM = 1 -> Flips \cup Shape \cup {[op |-> "open", c |-> 0, key |-> k, ad |-> d] : k \in Keys, d \in Ds} \cup {[op |-> "open", c |-> 0, key |-> k, noad |-> 1, ad |-> "none"] : k \in {K1, K2}}
    [] FAM = 2 -> {[op |-> "party", i |-> i, seed |-> 7 + (i % 2)] : i \in 1..2} \cup {[op |-> "agree", i |-> i, j |-> j] : i, j \in 0..2}
         \cup {[op |-> "send", c |-> 0, i |-> 0, j |-> 1, m |-> Msg], [op |-> "send_num", c |-> 0, i |-> 1, j |-> 0, x |-> 70000], [op |-> "seal", c |-> 0, key |-> K1, ad |-> <<>>, m |-> Msg]}
         \cup {[op |-> o, c |-> 0, i |-> i, j |-> j] : o \in {"recv", "recv_num"}, i, j \in 0..2}
    [] FAM = 3 -> {[op |-> o, r |-> 0, pw |-> p, m |-> m] : o \in {"verify", "rederive"}, p \in Pws, m \in {"normal", "resistant"}}
         \cup {[op |-> "spoil", r |-> 0, part |-> p, at |-> at, mask |-> 1] : p \in {"m", "t", "salt", "hash", "hash_cut", "hash_ext", "salt_ext"}, at \in {0, 3}}
    [] FAM = 4 -> Flips \cup {[op |-> "flip", c |-> 0, at |-> 48, mask |-> 1]} \cup Shape \cup {[op |-> "unwrap", c |-> 0, key |-> k] : k \in {K1, K2}} \cup {[op |-> "unwrap", c |-> 0, plain |-> 1, key |-> "none"]}
Init == s = S0 /\ n = 0 /\ last = <<>>
Next == n < N /\ \E a \in (IF n = 0 THEN First ELSE Acts) :
  /\ SealAllowed(s, a)
  /\ LET r == SealRes(s, a) IN s' = r[1] /\ last' = <<a, r[2]>> /\ n' = n + 1
     /\ PrintT(ToJson([s |-> <<s, n>>, a |-> a, o |-> r[2], t |-> <<s', n'>>]))
Spec == Init /\ [][Next]_<<s, n, last>>
ViewOf == <<s, n>>
(* only the holder of the key, and of the same associated data, opens a text, and only the text as it was sealed *)
OnlyKey == last # <<>> /\ last[2].k = "opened" =>
  LET a == last[1] c == s.ct[a.c] IN
  /\ Clean(c) /\ last[2].v = c.m
  /\ a.op = "open" => Raw(a.key) = c.key /\ AdOf(a) = c.ad
  /\ a.op \in {"recv", "recv_num"} => c.key = Secret(s, a)
Symmetric == \A i, j \in DOMAIN s.party : Secret(s, [i |-> i, j |-> j]) = Secret(s, [i |-> j, j |-> i])
OnlyPassword == last # <<>> /\ last[1].op = "verify" /\ last[2].k = "bool" /\ last[2].v => Norm(last[1].pw) = s.kdf[0].h[1]
=============================================================================
