------------------------------ MODULE Targets ------------------------------
(* Targets of work and stake (consensus/src/{pow,pos}, common/src/chain/{chaintrust,upgrades}): what the next block must *)
(* show, when a hash meets it, and the trust a block adds. Heights and times in actions are plain naturals below 2^31;   *)
(* targets, hashes and amounts are numbers of BigNum. A compact target is the number of its 32 bits.                     *)
EXTENDS Values
(* ---- the rules in force: a list of upgrades [h, kind, diff, cfg] sorted by height, the first at 0; diff <<>> = none   *)
UpAt(ups, h) == LET S == {i \in 1..Len(ups) : ups[i].h <= h} IN ups[CHOOSE i \in S : \A j \in S : ups[j].h <= ups[i].h]
AtStart(ups, h) == UpAt(ups, h).h = h
(* the times of the blocks of the chain: exceptions from a regular chain *)
TimeAt(a, h) == LET S == {i \in 1..Len(a.at) : a.at[i][1] = h} IN IF S = {} THEN a.base + a.step * h ELSE a.at[CHOOSE i \in S : TRUE][2]
ErrR == [k |-> "err"]
Target(c) == Expand(c.mag)
Cap(v, lim) == IF NLe(v, lim) THEN v ELSE lim
Clamp(v, lo, hi) == NMax(lo, Cap(v, hi))

(* ---- work: every 2016 blocks (two weeks of ten minutes) the target follows the time the last 2015 took, by at most 4 *)
Interval == 2016
Spacing == 600
Fortnight == Interval * Spacing
LimitOf(a) ==          \* the target of the first rule if that is work, else that of the network
  LET u == UpAt(a.ups, 0) IN
  IF u.kind = "pow" THEN Target(u.diff[1]).v.mag
  ELSE CASE a.net \in {"mainnet", "testnet"} -> NMaxOf(224)
         [] a.net = "signet" -> NShl(NFromInt(227246), 216)
         [] a.net = "regtest" -> NMaxOf(255)
Stalled(a) == a.time > TimeAt(a, a.h) + 2 * Spacing
WorkRequired(a) ==     \* for the block after height a.h of the given chain
  LET u == UpAt(a.ups, a.h + 1) IN
  IF u.h = a.h + 1 THEN ValI(u.diff[1])
  ELSE IF a.h = 0 THEN ValI(Pos(CompactOf(LimitOf(a))))
  ELSE IF a.net = "regtest" THEN ValI(a.bits)
  ELSE IF (a.h + 1) % Interval # 0
  THEN IF a.net = "testnet" /\ Stalled(a) THEN ValI(Pos(CompactOf(LimitOf(a)))) ELSE ValI(a.bits)
  ELSE LET took == TimeAt(a, a.h) - TimeAt(a, a.h - (Interval - 1))
           t == MaxI(Fortnight \div 4, MinI(took, 4 * Fortnight))
           old == Target(a.bits)
       IN IF old.k = "none" THEN ErrR
          ELSE LET p == NMul(old.v.mag, NFromInt(t))
                   q == IF NFits(p, 256) THEN p ELSE NMaxOf(256)
               IN ValI(Pos(CompactOf(Cap(NDiv(q, NFromInt(Fortnight)), LimitOf(a)))))
Meets(hash, c) == LET t == Target(c) IN IF t.k = "none" THEN ErrR ELSE [k |-> "bool", v |-> NLe(hash.mag, t.v.mag)]

(* ---- stake: after every block the target follows the average time of the last blocks, by at most a share *)
StakeRequired(a) ==
  LET u == UpAt(a.ups, a.h + 1)
      up == UpAt(a.ups, a.h)
      c == u.cfg
      lim == c.limit.mag
      start == MaxI(0, a.h - (c.count - 1))
      old == Target(a.bits)
  IN IF u.h = a.h + 1 /\ u.diff # <<>> THEN ValI(u.diff[1])
     ELSE IF a.h = 0 THEN ValI(Pos(CompactOf(lim)))
     ELSE IF up.h = a.h /\ up.diff # <<>> THEN ValI(up.diff[1])
     ELSE IF old.k = "none" \/ TimeAt(a, a.h) < TimeAt(a, start) \/ a.spacing = 0 THEN ErrR
     ELSE LET avg == (TimeAt(a, a.h) - TimeAt(a, start)) \div (a.h - start)
              o == old.v.mag
              step == NDiv(NMul(o, NFromInt(c.change)), NFromInt(1000))
              new == Clamp(NDiv(NMul(o, NFromInt(MaxI(1, avg))), NFromInt(a.spacing)), NSub(o, step), NAdd(o, step))
          IN ValI(Pos(CompactOf(Cap(new, lim))))
(* a pool counts with its balance up to a thousandth of the final supply, less a share that its pledge reduces *)
EffA == NFromInt(75375728)
EffB == NFromInt(1075375728)
Effective(pledge, bal, sup) ==
  IF sup = <<>> \/ ~NLt(bal, sup) \/ NLt(bal, pledge) THEN ErrR
  ELSE LET z == NDiv(sup, NFromInt(1000))
           sg == Cap(bal, z)
           s == Cap(pledge, z)
           z2 == NMul(z, z)
           t2 == NMul(NSub(NMul(z, sg), NMul(NSub(z, sg), s)), s)
       IN IF z = <<>> THEN ErrR
          ELSE ValI(Pos(NSub(sg, NDiv(NMul(NSub(NMul(sg, z2), t2), EffA), NMul(EffB, z2)))))
EffUnclear(sup) == NBits(sup) > 84        \* larger supplies may be refused for their intermediate results
StakeMeets(a) ==
  LET e == IF a.v = 0 THEN ValI(a.bal) ELSE Effective(a.pledge.mag, a.bal.mag, a.sup.mag) IN
  IF e.k = "err" THEN ErrR ELSE [k |-> "bool", v |-> NLe(a.hash.mag, NMul(e.v.mag, a.target.mag))]

(* ---- the trust a block adds *)
WorkProof(c) == LET t == Target(c) IN
  IF t.k = "none" THEN ErrR ELSE ValI(Pos(Cap(NDiv(NPow2(256), NAdd(t.v.mag, <<1>>)), NMaxOf(256))))
(* 10^18 * exp(-t / 100) for t < 1200, then 1: computed with 40 decimal digits *)
Ten40 == Ten(40)
RECURSIVE ExpPow(_, _)
ExpPow(r, n) == IF n = 0 THEN Ten40 ELSE LET h == ExpPow(r, n \div 2)
                                             q == NDiv(NMul(h, h), Ten40)
                                         IN IF n % 2 = 0 THEN q ELSE NDiv(NMul(q, r), Ten40)
ExpMinus100th ==   \* sum of (-1/100)^k / k! for k up to 16, with 40 digits
  LET term[k \in 0..16] == IF k = 0 THEN Ten40 ELSE NDiv(term[k - 1], NFromInt(100 * k))
      sum[k \in 0..16] == IF k = 0 THEN term[0] ELSE IF k % 2 = 1 THEN NSub(sum[k - 1], term[k]) ELSE NAdd(sum[k - 1], term[k])
  IN sum[16]
SlotProof(t) == IF t >= 1200 THEN <<1>> ELSE NDiv(ExpPow(ExpMinus100th, t), Ten(22))
ProofExact(a) == a.data # "pos" \/ a.t1 < a.t0 \/ a.t1 - a.t0 >= 1200
Proof(a) ==
  CASE a.data = "none" -> ValI(Int2(1))
    [] a.data = "pow" -> WorkProof(a.bits)
    [] a.data = "pos" -> IF a.t1 < a.t0 THEN ErrR ELSE ValI(Pos(SlotProof(a.t1 - a.t0)))
Near(x, y) == NLe(NSub(NMax(x, y), IF NLe(x, y) THEN x ELSE y), NFromInt(2000))     \* rounding of the code's table

(* ---- blocks: their consensus data must be of the kind in force and show the required work *)
BlockOk(a) ==
  LET u == UpAt(a.ups, a.h + 1) IN
  CASE u.kind = "ign" -> a.data = "none"
    [] u.kind = "pow" -> a.data = "pow" /\ WorkRequired(a) = ValI(a.mybits) /\ a.want
    [] u.kind = "pos" -> FALSE      \* only blocks without stake data are made here
Status(a) == LET u == UpAt(a.ups, a.h) IN [k |-> "status", kind |-> u.kind, start |-> u.kind # "ign" /\ u.h = a.h,
                                            diff |-> IF u.kind # "ign" /\ u.h = a.h THEN u.diff ELSE <<>>]
EvalT(a) ==
  CASE a.op = "work" -> WorkRequired(a)
    [] a.op = "stake" -> StakeRequired(a)
    [] a.op = "meets" -> Meets(a.hash, a.bits)
    [] a.op = "stakemeets" -> StakeMeets(a)
    [] a.op = "effective" -> Effective(a.pledge.mag, a.bal.mag, a.sup.mag)
    [] a.op = "proof" -> Proof(a)
    [] a.op = "block" -> [k |-> "bool", v |-> BlockOk(a)]
    [] a.op = "status" -> Status(a)
    [] a.op = "badups" -> ErrR
    [] a.op = "mine" -> [k |-> "mined", v |-> TRUE]
(* mining reports success exactly with a block that meets the target, and failure only if no nonce in its range does *)
AgreesT(a, o) ==
  CASE a.op = "proof" /\ ~ProofExact(a) -> o.k = "val" /\ ~o.v.neg /\ Near(o.v.mag, Proof(a).v.mag)
    [] a.op \in {"effective", "stakemeets"} /\ "sup" \in DOMAIN a /\ EffUnclear(a.sup.mag) -> o = EvalT(a) \/ o = ErrR
    [] a.op = "mine" -> o.k = "mined" /\ o.ok
    [] OTHER -> o = EvalT(a)
=============================================================================
