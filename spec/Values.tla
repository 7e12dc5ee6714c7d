------------------------------- MODULE Values -------------------------------
(* Compact difficulty targets, fractions, per-thousand rates, heights and distances, versions and timestamps            *)
(* (common/src/primitives). Texts are sequences of bytes; times are counted in nanoseconds.                              *)
EXTENDS Decimals
NoneR == [k |-> "none"]
ValI(v) == [k |-> "val", v |-> v]
FitU(v, w) == IF IFitsU(v, w) THEN ValI(v) ELSE NoneR
FitS(v, w) == IF IFitsS(v, w) THEN ValI(v) ELSE NoneR
Cmp(c) == [k |-> "cmp", v |-> c]
Chr(n) == Chars(NDigits(n, 10))

(* ---- compact targets: mantissa * 256^(size - 3) *)
CSize(c) == NToInt(NShr(c, 24))
CWord(c) == LET w == NToInt(NMod2(c, 23)) IN IF CSize(c) <= 3 THEN w \div (2^(8 * (3 - CSize(c)))) ELSE w
Expand(c) ==
  LET s == CSize(c)
      w == CWord(c)
  IN IF w # 0 /\ (NBit(c, 23) = 1 \/ s > 34 \/ (w > 255 /\ s > 33) \/ (w > 65535 /\ s > 32)) THEN NoneR
     ELSE IF w = 0 THEN ValI(I0)
     ELSE ValI(Pos(IF s <= 3 THEN NFromInt(w) ELSE NShl(NFromInt(w), 8 * (s - 3))))
CompactOf(v) ==
  LET n == (NBits(v) + 7) \div 8
      m == IF n <= 3 THEN NShl(v, 8 * (3 - n)) ELSE NShr(v, 8 * (n - 3))
      hi == NBits(m) = 24
      m2 == IF hi THEN NShr(m, 8) ELSE m
      n2 == IF hi THEN n + 1 ELSE n
  IN NAdd(m2, NShl(NFromInt(n2), 24))

(* ---- fractions, compared as numbers *)
RatCmp(a, b, c, d) == NCmp(NMul(a, d), NMul(c, b))

(* ---- heights (u64), distances (i64), counts (u64) *)
ISgn64(v) == IFitsS(v, 64)
HAddD(h, d) == IF ~ISgn64(h) THEN NoneR ELSE LET r == IAdd(h, d) IN IF r.neg THEN NoneR ELSE FitS(r, 64)
HSubD(h, d) == HAddD(h, INeg(d))
HSubH(h, g) == IF ISgn64(h) /\ ISgn64(g) THEN FitS(ISub(h, g), 64) ELSE NoneR
Iter(a, b) == IF ~NLe(a, b) THEN <<>> ELSE [i \in 1..NToInt(NSub(b, a)) |-> Pos(NAdd(a, NFromInt(i - 1)))]
IterIncl(a, b) == IF ~NLe(a, b) THEN <<>> ELSE Append(Iter(a, b), Pos(b))
ParseUInt(s0, w) ==     \* decimal digits with an optional plus sign
  LET s == IF s0 # <<>> /\ s0[1] = 43 THEN Tail(s0) ELSE s0 IN
  IF s = <<>> \/ \E i \in 1..Len(s) : ~IsDigit(s[i]) THEN NoneR
  ELSE FitU(Pos(NFromDigits(Digits(s), 10)), w)

(* ---- per-thousand rates *)
PtNew(n) == IF n <= 1000 THEN ValI(Int2(n)) ELSE NoneR
PtOf(r) == IF r.k = "none" \/ ~NLe(r.v.mag, NFromInt(1000)) THEN NoneR ELSE ValI(r.v)
PtParse(s) == LET t == TrimSpaces(s) IN
  IF t # <<>> /\ t[Len(t)] = 37 THEN PtOf(FromFixed(SubSeq(t, 1, Len(t) - 1), 1)) ELSE PtOf(FromFixed(s, 3))
PtText(n) == [k |-> "pt", p |-> Append(IntoFixed(NFromInt(n), 1), 37), d |-> IntoFixed(NFromInt(n), 3)]

(* ---- versions *)
RECURSIVE Split(_, _)
Split(s, c) == LET S == {i \in 1..Len(s) : s[i] = c} IN
  IF S = {} THEN <<s>> ELSE LET p == CHOOSE i \in S : \A j \in S : i <= j
                            IN <<SubSeq(s, 1, p - 1)>> \o Split(SubSeq(s, p + 1, Len(s)), c)
SvParse(s) == LET p == Split(s, 46) IN
  IF Len(p) # 3 THEN NoneR
  ELSE LET a == ParseUInt(p[1], 8)
           b == ParseUInt(p[2], 8)
           c == ParseUInt(p[3], 16)
       IN IF "none" \in {a.k, b.k, c.k} THEN NoneR ELSE [k |-> "sv", v |-> <<NToInt(a.v.mag), NToInt(b.v.mag), NToInt(c.v.mag)>>]
LexCmp(x, y) == LET S == {i \in 1..Len(x) : x[i] # y[i]} IN
  IF S = {} THEN 0 ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN IF x[m] < y[m] THEN -1 ELSE 1

(* ---- times *)
Giga == Ten(9)
MaxTime == NAdd(NMul(NMaxOf(64), Giga), NSub(Giga, <<1>>))
InTime(v) == ~v.neg /\ NLe(v.mag, MaxTime)
FitT(v) == IF InTime(v) THEN ValI(v) ELSE NoneR
SatT(v) == IF v.neg THEN ValI(I0) ELSE ValI(IF NLe(v.mag, MaxTime) THEN v ELSE Pos(MaxTime))
Secs(m) == NDiv(m, Giga)
Nanos(m) == NToInt(NMod(m, Giga))
Sec9999 == NSub(NMul(NFromInt(2932897), NFromInt(86400)), <<1>>)    \* 9999-12-31 23:59:59
CivilOK(m) == NLe(Secs(m), Sec9999)
P2(n) == <<48 + n \div 10, 48 + (n % 10)>>
PadN(n, w) == LET s == Chr(NFromInt(n)) IN [i \in 1..(w - Len(s)) |-> 48] \o s
Civil(days) ==    \* proleptic Gregorian date of a day since 1970-01-01
  LET z == days + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      mo == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF mo <= 2 THEN 1 ELSE 0)
  IN <<y, mo, d>>
TimeText(m) ==
  LET r == NDivMod(Secs(m), NFromInt(86400))
      c == Civil(NToInt(r[1]))
      t == NToInt(r[2])
      n == Nanos(m)
      frac == IF n = 0 THEN <<>> ELSE <<46>> \o (IF n % 1000000 = 0 THEN PadN(n \div 1000000, 3)
                                                ELSE IF n % 1000 = 0 THEN PadN(n \div 1000, 6) ELSE PadN(n, 9))
  IN PadN(c[1], 4) \o <<45>> \o P2(c[2]) \o <<45>> \o P2(c[3]) \o <<32>> \o P2(t \div 3600) \o <<58>>
     \o P2((t % 3600) \div 60) \o <<58>> \o P2(t % 60) \o frac \o <<32, 85, 84, 67>>
Millis(m) == NDiv(m, Ten(6))

EvalV(a) ==
  CASE a.op = "expand" -> Expand(a.a.mag)
    [] a.op = "compact" -> ValI(Pos(CompactOf(a.a.mag)))
    [] a.op = "rat" -> LET c == RatCmp(a.a.mag, a.b.mag, a.c.mag, a.d.mag) IN [k |-> "cmp", v |-> c, p |-> c, eq |-> (c = 0)]
    [] a.op = "rat_parts" -> [k |-> "parts", n |-> a.a, d |-> a.b, t |-> Chr(a.a.mag) \o <<32, 47, 32>> \o Chr(a.b.mag)]
    [] a.op = "h_add_d" -> HAddD(a.a, a.b)
    [] a.op = "h_sub_d" -> HSubD(a.a, a.b)
    [] a.op = "h_sub_h" -> HSubH(a.a, a.b)
    [] a.op = "d_add_d" -> FitS(IAdd(a.a, a.b), 64)
    [] a.op = "d_sub_d" -> FitS(ISub(a.a, a.b), 64)
    [] a.op \in {"c_add", "h_checked_add"} -> FitU(IAdd(a.a, a.b), 64)
    [] a.op = "c_sub" -> FitU(ISub(a.a, a.b), 64)
    [] a.op = "h_next" -> LET r == FitU(IAdd(a.a, Int2(1)), 64) IN IF r.k = "none" THEN [k |-> "panic"] ELSE r
    [] a.op = "h_prev" -> FitU(ISub(a.a, Int2(1)), 64)
    [] a.op = "h_cmp" -> [k |-> "cmp", v |-> ICmp(a.a, a.b), eq |-> (a.a = a.b)]
    [] a.op = "h_iter" -> [k |-> "list", v |-> Iter(a.a.mag, a.b.mag), incl |-> IterIncl(a.a.mag, a.b.mag)]
    [] a.op = "h_text" -> Text(Chr(a.a.mag))
    [] a.op = "h_parse" -> ParseUInt(a.s, 64)
    [] a.op = "pt_new" -> PtNew(a.n)
    [] a.op = "pt_json_int" -> PtNew(a.n)
    [] a.op = "pt_parse" -> PtParse(a.s)
    [] a.op = "pt_text" -> PtText(a.n)
    [] a.op = "pt_cmp" -> Cmp(IF a.n < a.n2 THEN -1 ELSE IF a.n = a.n2 THEN 0 ELSE 1)
    [] a.op = "sv_parse" -> SvParse(a.s)
    [] a.op = "sv_text" -> Text(Chr(NFromInt(a.a)) \o <<46>> \o Chr(NFromInt(a.b)) \o <<46>> \o Chr(NFromInt(a.c)))
    [] a.op = "sv_cmp" -> [k |-> "cmp", v |-> LexCmp(a.x, a.y), eq |-> (a.x = a.y)]
    [] a.op = "t_add" -> FitT(IAdd(a.a, a.b))
    [] a.op \in {"t_sub", "t_sub_t"} -> FitT(ISub(a.a, a.b))
    [] a.op = "t_sat_add" -> SatT(IAdd(a.a, a.b))
    [] a.op \in {"t_sat_sub", "t_sat_sub_t"} -> SatT(ISub(a.a, a.b))
    [] a.op = "t_cmp" -> Cmp(ICmp(a.a, a.b))
    [] a.op = "t_secs" -> ValI(Pos(Secs(a.a.mag)))
    [] a.op = "t_from_secs" -> ValI(IMul(a.a, Pos(Giga)))
    [] a.op = "t_to_int" -> FitU(Pos(Millis(a.a.mag)), 64)
    [] a.op = "t_from_int" -> ValI(IMul(a.a, Pos(Ten(6))))
    [] a.op = "t_abs" -> IF Nanos(a.a.mag) # 0 THEN [k |-> "frac"] ELSE ValI(a.a)
    [] a.op = "t_text" -> Text(TimeText(a.a.mag))
    [] a.op = "t_mock" -> LET r == FitU(Pos(Millis(a.a.mag)), 64) IN IF r.k = "none" THEN r ELSE ValI(IMul(r.v, Pos(Ten(6))))
(* Where the code may refuse instead: a height that leaves the range of distances may end in a panic (the repository     *)
(* documents it), and calendar dates need not exist for times past the year 9999.                                       *)
MayAlso(a, o) ==
  \/ a.op = "h_add_d" /\ o.k = "panic" /\ ISgn64(a.a) /\ ~ISgn64(IAdd(a.a, a.b))
  \/ a.op = "t_abs" /\ o.k = "none" /\ ~CivilOK(a.a.mag)
Agrees(a, o) ==
  \/ LET e == EvalV(a) IN o.k = e.k /\ \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]
  \/ MayAlso(a, o)
=============================================================================
