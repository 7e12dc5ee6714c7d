-------------------------------- MODULE Sigs --------------------------------
(* Symbolic model of signatures and verifiable random functions. A signature is the term (key, message) it was made for  *)
(* plus how its bytes have been altered; a VRF proof additionally has an output part, a function of key and transcript.  *)
(* Byte strings are sequences of runs <<byte, count>>; keys are named by the seed they were made from.                   *)
EXTENDS Naturals, Sequences, FiniteSets, Bitwise, TLC
RECURSIVE Join(_, _)
Join(d, e) ==
  IF e = <<>> THEN d
  ELSE LET x == Head(e) n == Len(d) IN
    IF x[2] = 0 THEN Join(d, Tail(e))
    ELSE IF n > 0 /\ d[n][1] = x[1] THEN Join([d EXCEPT ![n] = <<x[1], @[2] + x[2]>>], Tail(e))
    ELSE Join(Append(d, x), Tail(e))
Norm(d) == Join(<<>>, d)
XorIn(fl, at, mask) ==      \* a set of <<position, mask>>, one per altered position
  LET old == {f \in fl : f[1] = at}
      m == IF old = {} THEN mask ELSE (CHOOSE f \in old : TRUE)[2] ^^ mask
  IN (fl \ old) \cup (IF m = 0 THEN {} ELSE {<<at, m>>})
Put(f, i, v) == [x \in DOMAIN f \cup {i} |-> IF x = i THEN v ELSE f[x]]
SigLen == 65
G0 == [sig |-> <<>>, proof |-> <<>>]
(* a transcript: a label and labelled data, in order; a number is its eight bytes *)
Script(t) == <<t.l, [i \in 1..Len(t.items) |-> <<t.items[i].l, Norm(t.items[i].v)>>]>>
Whole(x) == x.fl = {} /\ x.len = SigLen /\ ~x.cut
Verifies(x, key, m) == Whole(x) /\ x.key = key /\ x.m = m
Valid(p, key, t) == p.fl = {} /\ p.pre = <<key, t>> /\ p.prf = <<key, t>>
Done == [k |-> "ok"]
(* --- encodings --- *)
Order == <<255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,254,186,174,220,230,175,72,160,59,191,210,94,140,208,54,65,65>>
Group == <<16,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,20,222,249,222,162,247,156,214,88,18,99,26,92,245,211,237>>
RECURSIVE Less(_, _)
Less(x, y) == x # <<>> /\ (x[1] < y[1] \/ (x[1] = y[1] /\ Less(Tail(x), Tail(y))))
Back(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Nonzero(x) == \E i \in 1..Len(x) : x[i] # 0
Sec(b) == Len(b) = 32 /\ Nonzero(b) /\ Less(b, Order)
Point(b, on) == Len(b) = 33 /\ b[1] \in {2, 3} /\ on     \* on: whether the x coordinate belongs to a point of the curve
Scalar(b) == Less(Back(b), Group)
Tail1(b) == SubSeq(b, 2, Len(b))
Kind0(b) == Len(b) > 0 /\ b[1] = 0
Decodes(a) ==
  CASE a.op = "dec_pub" -> Kind0(a.b) /\ Point(Tail1(a.b), a.on)
    [] a.op = "dec_sec" -> Kind0(a.b) /\ Sec(Tail1(a.b))
    [] a.op = "raw_pub" -> Point(a.b, a.on)
    [] a.op = "raw_sec" -> Sec(a.b)
    [] a.op = "dec_sig" -> Kind0(a.b) /\ Len(a.b) = SigLen
    [] a.op = "raw_sig" -> Len(a.b) = SigLen - 1
    [] a.op = "dec_vpub" -> Kind0(a.b) /\ Len(a.b) = 33 /\ a.on
    [] a.op = "dec_proof" -> Kind0(a.b) /\ Len(a.b) = 97 /\ Scalar(SubSeq(a.b, 34, 65)) /\ Scalar(SubSeq(a.b, 66, 97))
DecOps == {"dec_pub", "dec_sec", "raw_pub", "raw_sec", "dec_sig", "raw_sig", "dec_vpub", "dec_proof"}
SigRes(s, a) ==
  CASE a.op \in {"key", "vkey"} -> <<s, [k |-> "key", kept |-> TRUE]>>
    [] a.op = "sign" -> <<[s EXCEPT !.sig = Put(@, a.s, [key |-> a.key, m |-> Norm(a.m), fl |-> {}, len |-> SigLen, cut |-> FALSE])],
                          [k |-> "signed", len |-> SigLen, kept |-> TRUE]>>
    [] a.op = "spoil" -> <<[s EXCEPT !.sig[a.s].fl = XorIn(@, a.at, a.mask)], Done>>
    [] a.op = "resize" -> <<[s EXCEPT !.sig[a.s].len = a.n, !.sig[a.s].cut = @ \/ a.n < SigLen], Done>>
    [] a.op = "check" -> <<s, [k |-> "bool", v |-> Verifies(s.sig[a.s], a.key, Norm(a.m))]>>
    [] a.op = "prove" -> LET x == <<a.key, Script(a.t)>> IN
         <<[s EXCEPT !.proof = Put(@, a.s, [pre |-> x, prf |-> x, fl |-> {}])], [k |-> "proved", len |-> 97, kept |-> TRUE, out |-> <<"out", x>>, pre |-> <<"pre", x>>]>>
    [] a.op = "vspoil" -> <<[s EXCEPT !.proof[a.s].fl = XorIn(@, a.at, a.mask)], Done>>
    [] a.op = "vswap" -> <<[s EXCEPT !.proof[a.s].pre = s.proof[a.d].pre, !.proof[a.s].fl = {f \in @ : f[1] = 0 \/ f[1] > 32}], Done>>
    [] a.op = "vcheck" -> LET t == Script(a.t) IN
         <<s, IF Valid(s.proof[a.s], a.key, t) THEN [k |-> "valid", out |-> <<"out", <<a.key, t>>>>] ELSE [k |-> "refused"]>>
    [] a.op \in DecOps -> <<s, IF ~Decodes(a) THEN [k |-> "refused"] ELSE IF a.op \in {"raw_pub", "raw_sec"} THEN [k |-> "ok", v |-> a.b] ELSE [k |-> "ok", back |-> TRUE]>>
SigAllowed(s, a) ==
  CASE a.op = "spoil" -> a.s \in DOMAIN s.sig /\ a.at < s.sig[a.s].len
    [] a.op = "resize" -> a.s \in DOMAIN s.sig /\ a.n # s.sig[a.s].len
    [] a.op = "check" -> a.s \in DOMAIN s.sig
    [] a.op = "vspoil" -> a.s \in DOMAIN s.proof /\ a.at < 97
    [] a.op = "vswap" -> a.s \in DOMAIN s.proof /\ a.d \in DOMAIN s.proof /\ \A f \in s.proof[a.d].fl : f[1] = 0 \/ f[1] > 32
    [] a.op = "vcheck" -> a.s \in DOMAIN s.proof
    [] OTHER -> TRUE
=============================================================================
