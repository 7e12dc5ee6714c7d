-------------------------------- MODULE Seals --------------------------------
(* Symbolic model of encryption, key agreement and password hashing (perfect cryptography).                              *)
(* A sealed text is a term (key, associated data, message) plus how its bytes have been altered since: it opens exactly  *)
(* under its key and associated data while nothing is altered. Byte strings are sequences of runs <<byte, count>>.       *)
EXTENDS Naturals, Sequences, FiniteSets, Bitwise, TLC
RECURSIVE Join(_, _)
Join(d, e) ==
  IF e = <<>> THEN d
  ELSE LET x == Head(e) n == Len(d) IN
    IF x[2] = 0 THEN Join(d, Tail(e))
    ELSE IF n > 0 /\ d[n][1] = x[1] THEN Join([d EXCEPT ![n] = <<x[1], @[2] + x[2]>>], Tail(e))
    ELSE Join(Append(d, x), Tail(e))
Norm(d) == Join(<<>>, d)
RECURSIVE Size(_)
Size(d) == IF d = <<>> THEN 0 ELSE Head(d)[2] + Size(Tail(d))
LE8(x) == Norm(<<<<x % 256, 1>>, <<(x \div 256) % 256, 1>>, <<(x \div 65536) % 256, 1>>, <<x \div 16777216, 1>>, <<0, 4>>>>)
XorIn(fl, at, mask) ==      \* a set of <<position, mask>>, one per altered position
  LET old == {f \in fl : f[1] = at}
      m == IF old = {} THEN mask ELSE (CHOOSE f \in old : TRUE)[2] ^^ mask
  IN (fl \ old) \cup (IF m = 0 THEN {} ELSE {<<at, m>>})
Overhead == 40               \* 24 bytes of nonce and 16 of tag
Sealed(t, k, d, m) == [t |-> t, key |-> k, ad |-> d, m |-> m, size |-> Overhead + Size(m), len |-> Overhead + Size(m), fl |-> {}, broken |-> FALSE]
Clean(c) == c.fl = {} /\ ~c.broken /\ c.len = c.size
Ad(x) == IF x = "none" THEN <<>> ELSE Norm(x)
AdOf(a) == IF "noad" \in DOMAIN a THEN <<>> ELSE Norm(a.ad)
S0 == [ct |-> <<>>, party |-> <<>>, kdf |-> <<>>, n |-> 0]
Put(f, i, v) == [x \in DOMAIN f \cup {i} |-> IF x = i THEN v ELSE f[x]]
Done == [k |-> "ok"]
No == [k |-> "refused"]
Opened(m) == [k |-> "opened", v |-> m]
NewCt(s, a, c) == <<[s EXCEPT !.ct = Put(@, a.c, c), !.n = @ + 1], [k |-> "sealed", len |-> c.len, fresh |-> TRUE]>>
Secret(s, a) == <<"dh", {s.party[a.i], s.party[a.j]}>>
Raw(k) == <<"raw", Norm(k)>>
Plain == <<"plain">>
Try(s, a, t, k, d) == LET c == s.ct[a.c] IN IF c.t = t /\ Clean(c) /\ c.key = k /\ c.ad = d THEN Opened(c.m) ELSE No
Alter(s, a, c) == <<[s EXCEPT !.ct[a.c] = c], Done>>
(* a password hash: the term of what was hashed, stored next to the parameters that recompute it *)
KTerm(pw, e, n) == <<pw, e.m, e.t, e.p, n, e.salt>>
KFits(e, n, sl) == n >= 4 /\ sl >= 8 /\ e.m >= 8 * e.p
SealRes(s, a) ==
  CASE a.op = "seal" -> IF Size(a.key) # 32 THEN <<s, [k |-> "err"]>> ELSE NewCt(s, a, Sealed("data", Raw(a.key), AdOf(a), Norm(a.m)))
    [] a.op = "open" -> <<s, IF Size(a.key) # 32 THEN [k |-> "err"] ELSE Try(s, a, "data", Raw(a.key), AdOf(a))>>
    [] a.op = "flip" -> Alter(s, a, [s.ct[a.c] EXCEPT !.fl = XorIn(@, a.at, a.mask)])
    [] a.op = "cut" -> LET c == s.ct[a.c] n == c.len - a.n IN
         Alter(s, a, [c EXCEPT !.len = n, !.fl = {f \in @ : f[1] < n}, !.broken = @ \/ (n < c.size /\ a.n > 0)])
    [] a.op = "behead" -> Alter(s, a, [s.ct[a.c] EXCEPT !.len = @ - a.n, !.broken = @ \/ a.n > 0])
    [] a.op = "extend" -> Alter(s, a, [s.ct[a.c] EXCEPT !.len = @ + 1])
    [] a.op = "splice" -> Alter(s, a, [s.ct[a.c] EXCEPT !.len = s.ct[a.d].len, !.broken = TRUE])
    [] a.op = "copy" -> <<[s EXCEPT !.ct = Put(@, a.c, s.ct[a.d])], Done>>
    [] a.op = "party" -> <<[s EXCEPT !.party = Put(@, a.i, a.seed)], [k |-> "ok", same |-> TRUE]>>
    [] a.op = "agree" -> <<s, IF s.party[a.i] = s.party[a.j] THEN [k |-> "panic"] ELSE [k |-> "secret", v |-> Secret(s, a)]>>
    [] a.op = "send" -> NewCt(s, a, Sealed("data", Secret(s, a), <<>>, Norm(a.m)))
    [] a.op = "send_num" -> NewCt(s, a, Sealed("data", Secret(s, a), <<>>, LE8(a.x)))
    [] a.op = "recv" -> <<s, Try(s, a, "data", Secret(s, a), <<>>)>>
    [] a.op = "recv_num" -> <<s, LET r == Try(s, a, "data", Secret(s, a), <<>>) IN IF r.k = "opened" /\ Size(r.v) # 8 THEN No ELSE r>>
    [] a.op = "wrap" -> LET k == IF "plain" \in DOMAIN a THEN Plain ELSE Raw(a.key)
                            n == IF k = Plain THEN 9 ELSE 49
         IN <<[s EXCEPT !.ct = Put(@, a.c, [Sealed("wrap", k, <<>>, LE8(a.x)) EXCEPT !.size = n, !.len = n])], Done>>
    [] a.op = "unwrap" -> <<s, Try(s, a, "wrap", IF "plain" \in DOMAIN a THEN Plain ELSE Raw(a.key), <<>>)>>
    [] a.op = "hash" ->
         LET c == a.cfg
             e == [m |-> c.m, t |-> c.t, p |-> c.p, salt |-> <<s.n, {}, 0>>, sl |-> c.salt, len |-> c.len, at |-> {}, ext |-> FALSE]
         IN IF KFits(c, c.len, c.salt)
            THEN <<[s EXCEPT !.kdf = Put(@, a.r, [e |-> e, h |-> KTerm(Norm(a.pw), e, c.len)]), !.n = @ + 1],
                   [k |-> "hashed", kept |-> TRUE, salt_len |-> c.salt, len |-> c.len, h |-> KTerm(Norm(a.pw), e, c.len)]>>
            ELSE <<s, No>>
    [] a.op = "verify" -> LET x == s.kdf[a.r] IN
         <<s, IF ~KFits(x.e, x.e.len, x.e.sl) THEN No ELSE [k |-> "bool", v |-> x.e.at = {} /\ ~x.e.ext /\ x.h = KTerm(Norm(a.pw), x.e, x.e.len)]>>
    [] a.op = "rederive" -> LET x == s.kdf[a.r] IN
         <<s, IF KFits(x.e, x.e.len, x.e.sl) THEN [k |-> "hashed", kept |-> TRUE, h |-> KTerm(Norm(a.pw), x.e, x.e.len)] ELSE No>>
    [] a.op = "spoil" ->
         LET x == s.kdf[a.r]
             e == CASE a.part = "m" -> [x.e EXCEPT !.m = @ + 8 * x.e.p]
                    [] a.part = "t" -> [x.e EXCEPT !.t = @ + 1]
                    [] a.part = "salt" -> [x.e EXCEPT !.salt[2] = XorIn(@, a.at, a.mask)]
                    [] a.part = "salt_ext" -> [x.e EXCEPT !.salt[3] = @ * 256 + a.mask, !.sl = @ + 1]
                    [] a.part = "hash" -> [x.e EXCEPT !.at = XorIn(@, a.at, a.mask)]
                    [] a.part = "hash_cut" -> [x.e EXCEPT !.len = @ - 1, !.ext = TRUE]
                    [] a.part = "hash_ext" -> [x.e EXCEPT !.len = @ + 1, !.ext = TRUE]
         IN <<[s EXCEPT !.kdf[a.r].e = e], Done>>
Held(s, i) == i \in DOMAIN s.ct
Free(s, c) == s.ct[c].t = "data" \/ s.ct[c].key # Plain        \* an unencrypted value carries no protection against changes
SealAllowed(s, a) ==
  CASE a.op \in {"seal", "party", "wrap", "hash"} -> TRUE
    [] a.op = "open" -> Held(s, a.c) /\ s.ct[a.c].t = "data"
    [] a.op \in {"recv", "recv_num"} -> Held(s, a.c) /\ s.ct[a.c].t = "data" /\ {a.i, a.j} \subseteq DOMAIN s.party /\ s.party[a.i] # s.party[a.j]
    [] a.op = "unwrap" -> Held(s, a.c) /\ s.ct[a.c].t = "wrap"
    [] a.op = "flip" -> Held(s, a.c) /\ Free(s, a.c) /\ a.at < s.ct[a.c].len
    [] a.op \in {"cut", "behead"} -> Held(s, a.c) /\ Free(s, a.c) /\ a.n <= s.ct[a.c].len
    [] a.op = "extend" -> Held(s, a.c) /\ Free(s, a.c)
    [] a.op = "splice" -> Held(s, a.c) /\ Held(s, a.d) /\ s.ct[a.c].t = "data" /\ s.ct[a.d].t = "data" /\ a.at <= s.ct[a.c].len /\ a.at <= s.ct[a.d].len - 8 /\ a.at >= 8
                          /\ Clean(s.ct[a.c]) /\ Clean(s.ct[a.d])
    [] a.op = "copy" -> Held(s, a.d)
    [] a.op = "agree" -> {a.i, a.j} \subseteq DOMAIN s.party
    [] a.op \in {"send", "send_num"} -> {a.i, a.j} \subseteq DOMAIN s.party /\ s.party[a.i] # s.party[a.j]
    [] a.op \in {"verify", "rederive"} -> a.r \in DOMAIN s.kdf
    [] a.op = "spoil" -> a.r \in DOMAIN s.kdf /\ (a.part = "hash_cut" => s.kdf[a.r].e.len > 1)
                         /\ (a.part = "hash" => a.at < s.kdf[a.r].e.len) /\ (a.part = "salt" => a.at < s.kdf[a.r].e.sl)
=============================================================================
