-------------------------------- MODULE SigsMC --------------------------------
(* K03. FAM 1: one signature, every history of alterations and checks; FAM 2: two VRF proofs; FAM 3: encodings.          *)
EXTENDS Sigs, Json
CONSTANTS FAM, N
VARIABLES s, n, last
Ms == {<<>>, <<<<0, 1>>>>, <<<<0, 2>>>>, <<<<97, 64>>>>, <<<<97, 63>>, <<98, 1>>>>, <<<<97, 64>>, <<0, 1>>>>}
Ms2 == {<<>>, <<<<0, 1>>>>, <<<<97, 63>>, <<98, 1>>>>}
Item(l, t, v) == [l |-> l, t |-> t, v |-> v]
One == <<<<1, 1>>, <<0, 7>>>>
Ts == { [l |-> 0, items |-> <<>>], [l |-> 1, items |-> <<>>],
        [l |-> 1, items |-> <<Item(1, "num", One)>>], [l |-> 1, items |-> <<Item(1, "raw", One)>>], [l |-> 1, items |-> <<Item(2, "num", One)>>],
        [l |-> 1, items |-> <<Item(1, "num", <<<<1, 1>>, <<0, 3>>, <<1, 1>>, <<0, 3>>>>)>>],
        [l |-> 1, items |-> <<Item(1, "raw", <<<<1, 1>>>>)>>], [l |-> 1, items |-> <<Item(0, "raw", <<>>)>>],
        [l |-> 1, items |-> <<Item(1, "raw", <<<<98, 1>>>>), Item(3, "raw", <<>>)>>], [l |-> 1, items |-> <<Item(3, "raw", <<>>), Item(1, "raw", <<<<98, 1>>>>)>>],
        [l |-> 1, items |-> <<Item(1, "raw", <<<<98, 2>>>>)>>] }
First ==
  CASE FAM = 1 -> {[op |-> "sign", s |-> 0, key |-> k, m |-> m, aux |-> x] : k \in {1, 2}, m \in Ms, x \in {0, 5}} \cup {[op |-> "key", key |-> k] : k \in 1..5}
    [] FAM = 2 -> {[op |-> "prove", s |-> 0, key |-> k, t |-> t, how |-> h, aux |-> 3] : k \in {1, 2}, t \in Ts, h \in {"plain", "rng", "other"}} \cup {[op |-> "vkey", key |-> k] : k \in 1..5}
    [] FAM = 3 -> {}
Acts ==
  CASE FAM = 1 -> {[op |-> "check", s |-> 0, key |-> k, m |-> m, neg |-> g] : k \in 1..3, m \in Ms, g \in BOOLEAN}
         \cup {[op |-> "spoil", s |-> 0, at |-> at, mask |-> m] : at \in {0, 1, 32, 33, 64}, m \in {1, 128}}
         \cup {[op |-> "resize", s |-> 0, n |-> x] : x \in {0, 64, 65, 66}}
    [] FAM = 2 -> {[op |-> "vcheck", s |-> 0, key |-> k, t |-> t, how |-> h] : k \in {1, 2}, t \in Ts, h \in {"plain", "rng"}}
         \cup {[op |-> "vspoil", s |-> 0, at |-> at, mask |-> m] : at \in {0, 1, 32, 33, 64, 65, 96}, m \in {1, 128}}
         \cup {[op |-> "prove", s |-> 1, key |-> 1, t |-> [l |-> 1, items |-> <<Item(1, "num", One)>>], how |-> "rng", aux |-> 4], [op |-> "vswap", s |-> 0, d |-> 1]}
    [] FAM = 3 -> {}
Init == s = G0 /\ n = 0 /\ last = <<>>
Next == n < N /\ \E a \in (IF n = 0 THEN First ELSE Acts) :
  /\ SigAllowed(s, a)
  /\ LET r == SigRes(s, a) IN s' = r[1] /\ last' = <<a, r[2]>> /\ n' = n + 1
     /\ PrintT(ToJson([s |-> <<s, n>>, a |-> a, o |-> r[2], t |-> <<s', n'>>]))
Spec == Init /\ [][Next]_<<s, n, last>>
ViewOf == <<s, n>>
(* only what was signed verifies, and only under the key it was signed with *)
OnlySigned == last # <<>> /\ last[1].op = "check" /\ last[2].v =>
  LET x == s.sig[last[1].s] IN x.key = last[1].key /\ x.m = Norm(last[1].m) /\ Whole(x)
(* verifier and prover have the same output *)
OneOutput == \A i \in DOMAIN s.proof : Valid(s.proof[i], s.proof[i].prf[1], s.proof[i].prf[2]) => s.proof[i].pre = s.proof[i].prf
OnlyProved == last # <<>> /\ last[2].k = "valid" => s.proof[last[1].s].prf = <<last[1].key, Script(last[1].t)>> /\ s.proof[last[1].s].fl = {}
=============================================================================
