------------------------------ MODULE TargetsMC ------------------------------
(* Chains of all shapes around the limits of the retargeting rules, printed for replay, with the laws of L08.            *)
EXTENDS Targets, Json
CONSTANT FAM, RICH
VARIABLE act
C(n) == Pos(n)
Cp(size, word) == Pos(NAdd(NShl(NFromInt(size), 24), NFromInt(word)))
None == <<>>
Ign(h) == [h |-> h, kind |-> "ign", diff |-> None, cfg |-> 0]
Pow(h, d) == [h |-> h, kind |-> "pow", diff |-> <<d>>, cfg |-> 0]
PosU(h, d, c) == [h |-> h, kind |-> "pos", diff |-> d, cfg |-> c]
Easy == Cp(32, 8388607)
\* (a target above 2^233 times four fortnights may exceed 256 bits, and then counts as 2^256 - 1)
Bits == {Cp(29, 65535), Cp(27, 263371), Cp(3, 1), Cp(1, 65536), Cp(32, 8388607), Cp(28, 65535), Cp(34, 255), Cp(0, 0)} \cup (IF RICH THEN {Cp(29, 65536), Cp(4, 9581654), Cp(255, 1193046), Cp(33, 65535), Cp(2, 255), Cp(32, 65535), Cp(30, 1)} ELSE {Cp(4, 9581654)})
Base == 1000000000
Chain(ats) == [base |-> Base, step |-> 600, at |-> ats]
Merge(r, x) == [k \in DOMAIN r \cup DOMAIN x |-> IF k \in DOMAIN r THEN r[k] ELSE x[k]]
Tooks == {0, 1, Fortnight \div 4 - 1, Fortnight \div 4, Fortnight \div 4 + 1, Fortnight, Fortnight + 1, 4 * Fortnight - 1, 4 * Fortnight, 4 * Fortnight + 1, 5 * Fortnight, -1, -3000}
Ups == {<<Ign(0), Pow(1, Cp(29, 65535))>>, <<Pow(0, Cp(29, 65535))>>, <<Pow(0, Easy)>>, <<Ign(0), Pow(2015, Cp(29, 65535))>>, <<Ign(0), Pow(3, Cp(27, 263371)), Pow(2016, Easy)>>}
Nets == {"mainnet", "testnet", "signet", "regtest"}
NetsW == IF RICH THEN Nets ELSE {"mainnet", "testnet"}
UpsW == IF RICH THEN Ups ELSE {<<Pow(0, Cp(29, 65535))>>, <<Pow(0, Easy)>>, <<Ign(0), Pow(2015, Cp(29, 65535))>>}
BitsW == IF RICH THEN Bits ELSE {Cp(29, 65535), Cp(27, 263371), Cp(32, 8388607), Cp(34, 255), Cp(3, 1)}
RetAt(h, took) == <<<<h, Base + 2 * Fortnight>>, <<h - 2015, Base + 2 * Fortnight - took>>, <<h - 2016, Base + 7>>, <<h - 2014, Base + 1234567>>>>
WorkActs ==
  {Merge([op |-> "work", net |-> n, ups |-> u, h |-> h, bits |-> b, time |-> Base + 2 * Fortnight + dt],
         [base |-> Base, step |-> 600, at |-> RetAt(h, tk)])
    : n \in NetsW, u \in UpsW, h \in {2015, 4031}, b \in BitsW, dt \in {1}, tk \in Tooks}
  \cup {Merge([op |-> "work", net |-> n, ups |-> u, h |-> h, bits |-> b, time |-> Base + 5000 + dt], Chain(<<<<h, Base + 5000>>, <<h + 1, Base + 1>>>>))
    : n \in Nets, u \in Ups, h \in {2, 3, 2014, 2016}, b \in IF RICH THEN Bits ELSE {Cp(27, 263371), Cp(34, 255)}, dt \in {1, 1200, 1201, 5000, -10}}
  \cup {Merge([op |-> "work", net |-> n, ups |-> u, h |-> 0, bits |-> Easy, time |-> Base], Chain(<<>>)) : n \in Nets, u \in Ups}
WorkAllowed(a) == LET u == UpAt(a.ups, a.h + 1) IN u.kind = "pow" /\ (u.h = a.h + 1 \/ a.h = 0 \/ UpAt(a.ups, a.h).kind = "pow")

Cfg(lim, count, change) == [limit |-> Pos(lim), count |-> count, change |-> change]
Lims == {NMaxOf(256), NDiv(NMaxOf(256), NFromInt(120)), NFromInt(1000), NPow2(224)}
LimsS == IF RICH THEN Lims ELSE {NMaxOf(256), NDiv(NMaxOf(256), NFromInt(120)), NFromInt(1000)}
SBits == {Cp(32, 8388607), Cp(31, 139810), Cp(29, 65535), Cp(3, 1000), Cp(34, 255), Cp(4, 9581654), Cp(33, 65535), Cp(0, 0)}
StakeUps(c) == {<<Ign(0), PosU(1, <<Cp(29, 65535)>>, c)>>, <<PosU(0, None, c)>>, <<Ign(0), PosU(2, <<Cp(28, 65535)>>, c), PosU(5, None, c)>>, <<Ign(0), PosU(3, <<Cp(28, 65535)>>, c), PosU(5, <<Cp(31, 139810)>>, c)>>}
(* the average time of the last blocks: the last one at Base + 10^6, the first counted one d earlier *)
StakeAt(h, start, d) == <<<<h, Base + 1000000>>, <<start, Base + 1000000 - d>>, <<start - 1, Base + 3>>, <<start + 1, Base + 1000000 - 1>>>>
StartOf(h, c) == MaxI(0, h - (c.count - 1))
Ds(n, sp) == {0, n - 1, n, n * sp - 1, n * sp, n * sp + n, (n * sp * 11) \div 10, n * sp * 3, 900000, -1} \cap (-5..900000)
StakeActs ==
  UNION {UNION {UNION {UNION {{Merge([op |-> "stake", net |-> "regtest", ups |-> u, h |-> h, bits |-> b, spacing |-> sp],
        [base |-> Base, step |-> 600, at |-> StakeAt(h, StartOf(h, c), d)]) : u \in StakeUps(c), b \in IF RICH THEN SBits ELSE {Cp(32, 8388607), Cp(31, 139810), Cp(3, 1000), Cp(34, 255)}, d \in Ds(h - StartOf(h, c), sp)}
    : h \in IF RICH THEN {1, 2, 4, 5, 6, 19, 20, 45} ELSE {1, 4, 5, 6}} : c \in {Cfg(l, n, ch) : l \in LimsS, n \in IF RICH THEN {2, 4, 20} ELSE {2, 4}, ch \in IF RICH THEN {0, 1, 100, 1000} ELSE {1, 100}}} : sp \in IF RICH THEN {1, 7, 120} ELSE {120}} : x \in {0}}
  \cup {Merge([op |-> "stake", net |-> "regtest", ups |-> u, h |-> 0, bits |-> Easy, spacing |-> 120], Chain(<<>>)) : u \in StakeUps(Cfg(NPow2(224), 4, 100))}
StakeAllowed(a) == LET u == UpAt(a.ups, a.h + 1) IN
  u.kind = "pos" /\ ((u.h = a.h + 1 /\ u.diff # None) \/ a.h = 0 \/ UpAt(a.ups, a.h).kind = "pos")

AllBits == Bits \cup SBits \cup {Cp(s, w) : s \in {0, 1, 2, 3, 4, 5, 16, 31, 32, 33, 34, 35}, w \in {1, 127, 128, 255, 256, 65535, 65536, 8388607, 8388608}}
Around(m) == {Pos(x) : x \in {m, <<>>, NMaxOf(256)} \cup (IF m = <<>> THEN {} ELSE {NSub(m, <<1>>)}) \cup (IF m = NMaxOf(256) THEN {} ELSE {NAdd(m, <<1>>)})}
PureActs ==
  UNION {LET t == Target(b) IN {[op |-> "meets", hash |-> x, bits |-> b] : x \in IF t.k = "none" THEN {I0, Pos(NMaxOf(256))} ELSE Around(t.v.mag)} : b \in AllBits}
  \cup {[op |-> "proof", data |-> "pow", bits |-> b, t0 |-> 5, t1 |-> 3] : b \in AllBits}
  \cup {[op |-> "proof", data |-> d, bits |-> Easy, t0 |-> p[1], t1 |-> p[2]] : d \in {"none"}, p \in {<<0, 0>>, <<5, 3>>, <<1, 1000000>>}}
  \cup {[op |-> "proof", data |-> d, bits |-> Easy, t0 |-> p[1], t1 |-> p[2]] : d \in {"pos"}, p \in {<<5, 3>>, <<0, 1200>>, <<1, 1201>>, <<0, 2000000000>>, <<1000000000, 999999999>>}}
Amts == {<<>>, <<1>>, NFromInt(999), NFromInt(1000), NFromInt(1001), Ten(11), NMulSmall(Ten(16), 6), NMulSmall(Ten(19), 6), NSub(NMulSmall(Ten(19), 6), <<1>>), NMulSmall(Ten(18), 6), NMulSmall(Ten(15), 7), NMulSmall(Ten(16), 3), NAdd(NMulSmall(Ten(16), 6), <<1>>)} \cup (IF RICH THEN {Ten(21), NPow2(80), NMaxOf(128), Ten(9)} ELSE {NMaxOf(128)})
PoolActs ==
  {[op |-> "effective", pledge |-> Pos(p), bal |-> Pos(b), sup |-> Pos(s)] : p \in Amts, b \in Amts, s \in {x \in Amts : ~EffUnclear(x)}}
  \cup UNION {LET w == IF v = 0 THEN ValI(Pos(b)) ELSE Effective(p, b, s)
                  m == IF w.k = "err" THEN <<>> ELSE NMul(w.v.mag, t)
              IN {[op |-> "stakemeets", v |-> v, hash |-> x, target |-> Pos(t), pledge |-> Pos(p), bal |-> Pos(b), sup |-> Pos(s)] : x \in {y \in Around(m) : NFits(y.mag, 256)}}
        : p \in {<<>>, NMulSmall(Ten(15), 7), NFromInt(1000)}, b \in {NFromInt(999), NFromInt(1000), NMulSmall(Ten(16), 3), NMulSmall(Ten(18), 6)}, s \in {NMulSmall(Ten(19), 6), NFromInt(1001), <<>>},
          t \in {<<>>, <<1>>, NPow2(190), NPow2(200), NDiv(NMaxOf(256), NMulSmall(Ten(16), 3))}, v \in {0, 1}}
Blocks ==
  {Merge([op |-> "block", net |-> n, ups |-> u, h |-> h, bits |-> Easy, mybits |-> m, want |-> w, data |-> d, time |-> Base + 5000], Chain(<<<<h, Base + 4000>>>>))
    : n \in {"mainnet", "regtest"}, u \in {<<Pow(0, Easy)>>, <<Ign(0), Pow(3, Easy)>>, <<Pow(0, Easy), Ign(3)>>, <<Pow(0, Easy), Pow(3, Cp(32, 8388606))>>, <<Pow(0, Easy), PosU(3, <<Easy>>, Cfg(NMaxOf(256), 2, 1))>>},
      h \in {0, 1, 2, 3}, m \in {Easy, Cp(32, 8388606), Cp(31, 8388607)}, w \in BOOLEAN, d \in {"none", "pow"}}
BlockAllowed(a) == LET u == UpAt(a.ups, a.h + 1) IN u.kind # "pow" \/ u.h = a.h + 1 \/ a.h = 0 \/ UpAt(a.ups, a.h).kind = "pow"
Lists == {<<>>, <<Ign(1)>>, <<Pow(1, Easy), Ign(2)>>}
StatUps == Ups \cup StakeUps(Cfg(NPow2(224), 4, 100)) \cup {<<Ign(0)>>, <<Pow(0, Easy), Ign(3), PosU(7, None, Cfg(NPow2(224), 4, 100))>>, <<Pow(1, Easy), Ign(0)>>, <<PosU(9, <<Easy>>, Cfg(NPow2(224), 4, 100)), Pow(4, Easy), Ign(0)>>}
StatusActs == {[op |-> "status", ups |-> u, h |-> h] : u \in StatUps, h \in 0..10 \cup {2014, 2015, 2016, 2017, 1000000000}}
  \cup {[op |-> "badups", ups |-> u] : u \in Lists}
  \cup {[op |-> "mine", bits |-> b, max |-> m, stop |-> s, seed |-> Int2(x)] : b \in {Easy, Cp(31, 8388607), Cp(32, 65536 * 4), Cp(3, 1), Cp(35, 70000)}, m \in {0, 1, 2, 40}, s \in BOOLEAN, x \in 1..6}
Acts == CASE FAM = "work" -> {a \in WorkActs : WorkAllowed(a)}
          [] FAM = "stake" -> {a \in StakeActs : StakeAllowed(a)}
          [] FAM = "pure" -> PureActs
          [] FAM = "pool" -> PoolActs
          [] FAM = "block" -> {a \in Blocks : BlockAllowed(a)}
          [] FAM = "status" -> StatusActs
Out(a) == IF a.op = "mine" THEN [k |-> "mined", ok |-> TRUE] ELSE EvalT(a)
Init == act \in Acts /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> Out(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act
(* L08 *)
Slack(v) == NAdd(NShr(v, 15), <<1>>)     \* what the compact form cannot show
WorkLaws == act.op = "work" => LET r == WorkRequired(act) IN r.k = "val" =>
  LET t == Target(r.v) o == Target(act.bits) u == UpAt(act.ups, act.h + 1) IN
  (u.h # act.h + 1 /\ act.h # 0 /\ o.k = "val" /\ NLe(o.v.mag, LimitOf(act)) /\ o.v.mag # <<>>) =>
     /\ NLe(t.v.mag, LimitOf(act))
     /\ \/ act.net = "testnet" /\ Stalled(act) /\ (act.h + 1) % Interval # 0
        \/ NLe(t.v.mag, NMulSmall(o.v.mag, 4)) /\ (NBits(o.v.mag) > 233 \/ NLe(NShr(o.v.mag, 2), NAdd(t.v.mag, Slack(NShr(o.v.mag, 2)))))
     /\ ((act.h + 1) % Interval # 0 /\ act.net # "testnet") => t.v.mag = o.v.mag
StakeLaws == act.op = "stake" => LET r == StakeRequired(act) IN r.k = "val" =>
  LET t == Target(r.v) o == Target(act.bits) u == UpAt(act.ups, act.h + 1) p == UpAt(act.ups, act.h)
      c == u.cfg
      most == NDiv(NMul(o.v.mag, NFromInt(1000 + c.change)), NFromInt(1000))
      least == NDiv(NMul(o.v.mag, NFromInt(1000 - c.change)), NFromInt(1000))
  IN ~((u.h = act.h + 1 /\ u.diff # None) \/ act.h = 0 \/ (p.h = act.h /\ p.diff # None)) =>
     /\ NLe(t.v.mag, c.limit.mag) /\ NLe(t.v.mag, most)
     /\ NLe(Cap(least, c.limit.mag), NAdd(t.v.mag, Slack(least)))
PoolLaws == act.op = "effective" => LET r == EvalT(act) IN r.k = "val" => NLe(r.v.mag, act.bal.mag) /\ NLe(r.v.mag, NDiv(act.sup.mag, NFromInt(1000)))
ProofLaws == (act.op = "proof" /\ act.data = "pow") => LET r == EvalT(act) IN r.k = "val" => r.v.mag # <<>>
Laws == WorkLaws /\ StakeLaws /\ PoolLaws /\ ProofLaws
=============================================================================
