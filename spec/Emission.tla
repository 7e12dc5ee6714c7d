------------------------------ MODULE Emission ------------------------------
(* New coins: the schedule of emission (common/src/chain/config/emission_schedule.rs) as rates per block, its text form,  *)
(* and the schedule of the networks. Amounts are atoms; a period <<h, r>> gives the rate r to the blocks after height h.  *)
EXTENDS Decimals
CU == 11
Coins(n) == NMul(NFromInt(n), Ten(CU))
Earlier(P, h) == SelectSeq(P, LAMBDA p : NLt(p[1], h))
(* the rate of the block at height h > 0 *)
Rate(s, h) == LET q == Earlier(s.periods, h) IN IF q = <<>> THEN s.first ELSE q[Len(q)][2]
(* all that was given out up to height h: the sum of the rates of the blocks at 1..h, taken by periods *)
RECURSIVE SumOf(_, _, _, _)
SumOf(q, from, rate, h) == IF q = <<>> THEN NMul(rate, NSub(h, from))
                           ELSE NAdd(NMul(rate, NSub(q[1][1], from)), SumOf(Tail(q), q[1][1], q[1][2], h))
Supply(s, h) == NAdd(s.init, SumOf(Earlier(s.periods, h), <<>>, s.first, h))
LastOf(P) == P[Len(P)]
Final(s) == IF s.periods = <<>> THEN (IF s.first = <<>> THEN <<s.init>> ELSE <<>>)
            ELSE IF LastOf(s.periods)[2] # <<>> THEN <<>> ELSE <<Supply(s, LastOf(s.periods)[1])>>
Wide(s, h) == ~NFits(Supply(s, h), W) \/ (s.periods # <<>> /\ ~NFits(Supply(s, LastOf(s.periods)[1]), W))
At(s, h) == [k |-> "at", supply |-> Pos(Supply(s, h)), subsidy |-> IF h = <<>> THEN <<>> ELSE <<Pos(Rate(s, h))>>, init |-> Pos(s.init),
             final |-> LET f == Final(s) IN IF f = <<>> THEN <<>> ELSE <<Pos(f[1])>>]
(* texts: initial + first , height:+rate , ... *)
Blank(c) == c = 32 \/ (c >= 9 /\ c <= 13)
Tr(s) == LET S == {i \in 1..Len(s) : ~Blank(s[i])} IN
  IF S = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in S : \A j \in S : i <= j, CHOOSE i \in S : \A j \in S : j <= i)
RECURSIVE Split(_, _)
Split(s, c) == LET S == {i \in 1..Len(s) : s[i] = c} IN
  IF S = {} THEN <<s>> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
CoinsOf(s) == LET r == FromFixed(s, CU) IN IF r.k = "none" THEN r ELSE [k |-> "val", v |-> r.v.mag]
HeightOf(s) == LET d == IF s # <<>> /\ s[1] = 43 THEN Tail(s) ELSE s
                   n == NFromDigits(Digits(d), 10) IN
  IF d = <<>> \/ \E i \in 1..Len(d) : ~IsDigit(d[i]) THEN Rej ELSE IF NFits(n, 64) THEN Val(n) ELSE Rej
PeriodOf(s0) ==
  LET s == Tr(s0) S == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 43} IN
  IF S = {} THEN Rej
  ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j
           h == HeightOf(SubSeq(s, 1, i - 1)) r == CoinsOf(SubSeq(s, i + 2, Len(s)))
       IN IF h.k = "none" \/ r.k = "none" THEN Rej ELSE Val(<<h.v, r.v>>)
RECURSIVE Put(_, _)
Put(P, p) == IF P = <<>> \/ NLt(p[1], P[1][1]) THEN <<p>> \o P
             ELSE IF P[1][1] = p[1] THEN <<p>> \o Tail(P) ELSE <<P[1]>> \o Put(Tail(P), p)
RECURSIVE Sorted(_)
Sorted(ps) == IF ps = <<>> THEN <<>> ELSE Put(Sorted(SubSeq(ps, 1, Len(ps) - 1)), ps[Len(ps)])
ParseS(t) ==
  LET parts == Split(t, 44)
      head == Tr(parts[1])
      S == {i \in 1..Len(head) : head[i] = 43}
      i == CHOOSE i \in S : \A j \in S : i <= j
      a == CoinsOf(Tr(SubSeq(head, 1, i - 1))) b == CoinsOf(SubSeq(head, i + 1, Len(head)))
      ps == [k \in 1..(Len(parts) - 1) |-> PeriodOf(parts[k + 1])]
  IN IF S = {} THEN Rej
     ELSE IF a.k = "none" \/ b.k = "none" \/ \E k \in 1..Len(ps) : ps[k].k = "none" THEN Rej
     ELSE [k |-> "sched", init |-> a.v, first |-> b.v, periods |-> Sorted([k \in 1..Len(ps) |-> ps[k].v])]
RECURSIVE ShowPs(_)
ShowPs(P) == IF P = <<>> THEN <<>> ELSE <<44>> \o Chars(NDigits(P[1][1], 10)) \o <<58, 43>> \o IntoFixed(P[1][2], CU) \o ShowPs(Tail(P))
ShowS(s) == IntoFixed(s.init, CU) \o <<43>> \o IntoFixed(s.first, CU) \o ShowPs(s.periods)
(* the networks: ten years *)
YearRates == <<151, 113, 85, 64, 48, 36, 27, 20, 15, 0>>
NetSched(spacing) == [init |-> Coins(400000000), first |-> Coins(202),
                      periods |-> [y \in 1..10 |-> <<NMul(NFromInt(31536000 \div spacing), NFromInt(y)), Coins(YearRates[y])>>]]
In(a) == [init |-> a.init.mag, first |-> a.first.mag, periods |-> [i \in 1..Len(a.periods) |-> <<a.periods[i][1].mag, a.periods[i][2].mag>>]]
Back(s) == IF s.k = "none" THEN s ELSE [k |-> "sched", init |-> Pos(s.init), first |-> Pos(s.first), periods |-> [i \in 1..Len(s.periods) |-> <<Pos(s.periods[i][1]), Pos(s.periods[i][2])>>]]
EvalE(a) ==
  CASE a.op = "at" -> At(In(a), a.h.mag)
    [] a.op = "show" -> Text(ShowS(In(a)))
    [] a.op = "parse" -> Back(ParseS(a.s))
    [] a.op = "net" -> LET s == NetSched(a.spacing) IN [k |-> "net", subsidy |-> Pos(Rate(s, a.h.mag)), supply |-> Pos(Supply(s, a.h.mag)), final |-> <<Pos(Final(s)[1])>>]
(* where the supply does not fit an amount, a schedule is refused *)
AgreesE(a, o) == o = EvalE(a) \/ (a.op = "at" /\ Wide(In(a), a.h.mag) /\ o.k = "panic")
=============================================================================
