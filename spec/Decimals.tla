------------------------------ MODULE Decimals ------------------------------
(* Decimal amounts (common/src/primitives/amount/decimal.rs): a mantissa of W bits and a number of decimals 0..255.      *)
(* Texts are sequences of bytes.                                                                                        *)
EXTENDS BigNum, TLC
W == 128
MAXDEC == 255
IsDigit(c) == c >= 48 /\ c <= 57
Dec(m, d) == [k |-> "dec", m |-> Pos(m), d |-> d]
Rej == [k |-> "none"]

RECURSIVE TrimPad(_, _)
TrimPad(m, d) == IF d > 0 /\ NDivSmall(m, 10)[2] = 0 THEN TrimPad(NDivSmall(m, 10)[1], d - 1) ELSE <<m, d>>
(* An amount of zero can be given any number of decimals. *)
WithDecimals(m, d, n) ==
  IF n < d THEN Rej
  ELSE IF m = <<>> THEN Dec(<<>>, n)
  ELSE IF n - d > 38 THEN Rej
  ELSE LET r == NMul(m, Ten(n - d)) IN IF NFits(r, W) THEN Dec(r, n) ELSE Rej

TrimSpaces(s) == LET S == {i \in 1..Len(s) : s[i] # 32} IN
  IF S = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in S : \A j \in S : i <= j, CHOOSE i \in S : \A j \in S : j <= i)
Digits(s) == [i \in 1..Len(s) |-> s[i] - 48]
Parse(s0) ==
  LET s == SelectSeq(TrimSpaces(s0), LAMBDA c : c # 95)
      dots == {i \in 1..Len(s) : s[i] = 46}
      p == IF dots = {} THEN Len(s) + 1 ELSE CHOOSE i \in dots : \A j \in dots : i <= j
      int == SubSeq(s, 1, p - 1)
      frac == IF dots = {} THEN <<>> ELSE SubSeq(s, p + 1, Len(s))
  IN IF Len(s0) > MAXDEC + 2 \/ Len(int) + Len(frac) = 0 \/ Len(frac) > MAXDEC THEN Rej
     ELSE IF \E i \in 1..Len(int) : ~IsDigit(int[i]) THEN Rej
     ELSE IF \E i \in 1..Len(frac) : ~IsDigit(frac[i]) THEN Rej
     ELSE LET m == NFromDigits(Digits(int \o frac), 10) IN IF NFits(m, W) THEN Dec(m, Len(frac)) ELSE Rej

Chars(ds) == [i \in 1..Len(ds) |-> ds[i] + 48]
Show(m, d) ==
  LET ds == NDigits(m, 10)
      pd == [i \in 1..MaxI(0, d + 1 - Len(ds)) |-> 0] \o ds
  IN IF d = 0 THEN Chars(ds) ELSE Chars(SubSeq(pd, 1, Len(pd) - d)) \o <<46>> \o Chars(SubSeq(pd, Len(pd) - d + 1, Len(pd)))
Text(t) == [k |-> "text", v |-> t]
Val(v) == [k |-> "val", v |-> v]

ToAmount(m, d, n) == LET t == TrimPad(m, d)
                         r == WithDecimals(t[1], t[2], n) IN IF r.k = "none" THEN Rej ELSE Val(r.m)
FromFixed(s, n) == LET p == Parse(s) IN IF p.k = "none" THEN Rej ELSE ToAmount(p.m.mag, p.d, n)
IntoFixed(m, n) == LET t == TrimPad(m, n) IN Show(t[1], t[2])
SFromFixed(s, n) ==
  LET neg == s # <<>> /\ s[1] = 45
      r == FromFixed(IF neg THEN Tail(s) ELSE s, n)
  IN IF r.k = "none" THEN Rej
     ELSE LET v == IF neg THEN INeg(r.v) ELSE r.v IN IF IFitsS(v, W) THEN Val(v) ELSE Rej
SIntoFixed(v, n) == (IF v.neg THEN <<45>> ELSE <<>>) \o IntoFixed(v.mag, n)
Sub2(m1, d1, m2, d2) ==
  LET t == TrimPad(m2, d2)
      n == MaxI(d1, t[2])
      x == WithDecimals(m1, d1, n)
      y == WithDecimals(t[1], t[2], n)
  IN IF x.k = "none" \/ y.k = "none" \/ NLt(x.m.mag, y.m.mag) THEN Rej
     ELSE LET r == TrimPad(NSub(x.m.mag, y.m.mag), n) IN Dec(r[1], r[2])

Eval(a) ==
  CASE a.op = "parse" -> Parse(a.s)
    [] a.op = "show" -> Text(Show(a.m.mag, a.d))
    [] a.op = "with_decimals" -> WithDecimals(a.m.mag, a.d, a.n)
    [] a.op = "without_padding" -> LET t == TrimPad(a.m.mag, a.d) IN Dec(t[1], t[2])
    [] a.op = "to_amount" -> ToAmount(a.m.mag, a.d, a.n)
    [] a.op = "from_fixed" -> FromFixed(a.s, a.n)
    [] a.op = "into_fixed" -> Text(IntoFixed(a.m.mag, a.n))
    [] a.op = "sfrom_fixed" -> SFromFixed(a.s, a.n)
    [] a.op = "sinto_fixed" -> Text(SIntoFixed(a.v, a.n))
    [] a.op = "sub" -> Sub2(a.m.mag, a.d, a.m2.mag, a.d2)
    [] a.op = "is_same" -> [k |-> "bool", v |-> (a.m = a.m2 /\ a.d = a.d2)]
    \* a text of a JSON document: {"atoms": t1, "decimal": t2} written for an amount, and read back
    [] a.op = "rpc_out" -> [k |-> "rpc", atoms |-> Chars(NDigits(a.m.mag, 10)),
                            decimal |-> IF a.full THEN Show(a.m.mag, a.n) ELSE IntoFixed(a.m.mag, a.n)]
    [] a.op = "rpc_in_decimal" -> FromFixed(a.s, a.n)
=============================================================================
