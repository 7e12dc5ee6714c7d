------------------------------- MODULE Hashing -------------------------------
(* Hashers as accumulators of bytes. Data is a sequence of runs <<byte, count>>, neighbours different, counts positive.  *)
(* The digest of data d under algorithm g is the term [alg |-> g, data |-> d]; its bytes are given by an independent     *)
(* implementation of the algorithm.                                                                                      *)
EXTENDS Naturals, Sequences, TLC
RECURSIVE Join(_, _)
Join(d, e) ==
  IF e = <<>> THEN d
  ELSE LET x == Head(e) n == Len(d) IN
    IF x[2] = 0 THEN Join(d, Tail(e))
    ELSE IF n > 0 /\ d[n][1] = x[1] THEN Join([d EXCEPT ![n] = <<x[1], @[2] + x[2]>>], Tail(e))
    ELSE Join(Append(d, x), Tail(e))
RECURSIVE JoinAll(_, _)
JoinAll(d, es) == IF es = <<>> THEN d ELSE JoinAll(Join(d, Head(es)), Tail(es))
Digest(g, d) == [k |-> "digest", v |-> [alg |-> g, key |-> <<>>, data |-> d]]
Mac(key, d) == [k |-> "digest", v |-> [alg |-> "mac", key |-> key, data |-> d]]
H0 == [alg |-> "sha256", data |-> <<>>, saved |-> <<>>]
Done == [k |-> "ok"]
Bits(x) == [i \in 1..Len(x) |-> x[i] > 127]
HashRes(s, a) ==
  CASE a.op = "new" -> <<[alg |-> a.alg, data |-> <<>>, saved |-> <<>>], Done>>
    [] a.op = "write" -> <<[s EXCEPT !.data = Join(@, a.d)], Done>>
    [] a.op = "write2" -> <<[s EXCEPT !.data = Join(Join(@, a.d), a.e)], Done>>
    [] a.op = "clear" -> <<[s EXCEPT !.data = <<>>], Done>>
    [] a.op = "final" -> <<[s EXCEPT !.data = <<>>], Digest(s.alg, s.data)>>
    [] a.op = "save" -> <<[s EXCEPT !.saved = <<s.data>>], Done>>
    [] a.op = "back" -> <<[s EXCEPT !.data = s.saved[1], !.saved = <<>>], Done>>
    [] a.op = "once" -> <<s, Digest(a.alg, Join(<<>>, a.d))>>
    [] a.op \in {"mac", "mac_split"} -> <<s, Mac(Join(<<>>, a.key), JoinAll(<<>>, a.ps))>>
    [] a.op = "eq" -> <<s, [k |-> "bool", v |-> IF a.t = 1 THEN Bits(a.x) = Bits(a.y) ELSE a.x = a.y]>>
HashAllowed(s, a) == CASE a.op = "save" -> s.alg # "sha256ripemd160" [] a.op = "back" -> s.saved # <<>> [] OTHER -> TRUE
=============================================================================
