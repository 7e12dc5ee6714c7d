-------------------------------- MODULE Texts --------------------------------
(* Bech32m texts (common/src/primitives/bech32_encoding), hash texts and user agents. Texts are sequences of bytes.      *)
EXTENDS BigNum, TLC
NoneR == [k |-> "none"]
Charset == <<113,112,122,114,121,57,120,56,103,102,50,116,118,100,119,48,115,51,106,110,53,52,107,104,99,101,54,109,117,97,55,108>>
CharOf(v) == Charset[v + 1]
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
IsUp(c) == c >= 65 /\ c <= 90
IsLow(c) == c >= 97 /\ c <= 122
IsSym(c) == \E i \in 1..32 : Charset[i] = Lower(c)
SymOf(c) == (CHOOSE i \in 1..32 : Charset[i] = Lower(c)) - 1

Gen == <<996825010, 642813549, 513874426, 1027748829, 705979059>>
PolyStep(chk, v) ==
  LET top == chk \div 33554432
      c == ((chk % 33554432) * 32) ^^ v
  IN FoldLeft(LAMBDA acc, i : IF (top \div 2^(i - 1)) % 2 = 1 THEN acc ^^ Gen[i] ELSE acc, c, <<1, 2, 3, 4, 5>>)
Poly(vs) == FoldLeft(PolyStep, 1, vs)
HrpExpand(h) == [i \in 1..Len(h) |-> Lower(h[i]) \div 32] \o <<0>> \o [i \in 1..Len(h) |-> Lower(h[i]) % 32]
M32 == 734539939      \* the bech32m constant 0x2bc830a3; bech32 has 1
Check(h, d, const) ==
  LET p == Poly(HrpExpand(h) \o d \o <<0, 0, 0, 0, 0, 0>>) ^^ const IN [i \in 1..6 |-> (p \div 2^(5 * (6 - i))) % 32]
(* groups of 8 bits to groups of 5 bits and back; what does not fill a byte is dropped *)
ToFive(d) == LET n == (8 * Len(d) + 4) \div 5
                 bit(i) == IF i > 8 * Len(d) THEN 0 ELSE (d[(i - 1) \div 8 + 1] \div 2^(7 - ((i - 1) % 8))) % 2
             IN [j \in 1..n |-> 16 * bit(5 * j - 4) + 8 * bit(5 * j - 3) + 4 * bit(5 * j - 2) + 2 * bit(5 * j - 1) + bit(5 * j)]
ToEight(v) == LET n == (5 * Len(v)) \div 8
                  bit(i) == (v[(i - 1) \div 5 + 1] \div 2^(4 - ((i - 1) % 5))) % 2
              IN [j \in 1..n |-> FoldLeft(LAMBDA acc, i : 2 * acc + bit(8 * (j - 1) + i), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)]
Mixed(s) == (\E i \in 1..Len(s) : IsUp(s[i])) /\ (\E i \in 1..Len(s) : IsLow(s[i]))
HrpOk(h) == Len(h) \in 1..83 /\ ~Mixed(h) /\ \A i \in 1..Len(h) : h[i] \in 33..126
EncodeWith(h, d, const) ==
  LET v == ToFive(d)
      s == v \o Check(h, v, const)
  IN [i \in 1..Len(h) |-> Lower(h[i])] \o <<49>> \o [i \in 1..Len(s) |-> CharOf(s[i])]
Encode(h, d) == IF ~HrpOk(h) \/ Len(h) + 1 + (8 * Len(d) + 4) \div 5 + 6 > 1023 THEN NoneR
                ELSE [k |-> "text", v |-> EncodeWith(h, d, M32)]
Decode(s) ==
  LET seps == {i \in 1..Len(s) : s[i] = 49} IN
  IF seps = {} \/ Mixed(s) \/ Len(s) > 1023 THEN NoneR
  ELSE LET p == CHOOSE i \in seps : \A j \in seps : j <= i
           h == SubSeq(s, 1, p - 1)
           t == SubSeq(s, p + 1, Len(s))
       IN IF ~HrpOk(h) \/ Len(t) < 6 \/ \E i \in 1..Len(t) : ~IsSym(t[i]) THEN NoneR
          ELSE LET v == [i \in 1..Len(t) |-> SymOf(t[i])] IN
               IF Poly(HrpExpand(h) \o v) # M32 THEN NoneR
               ELSE [k |-> "dec", h |-> h, d |-> ToEight(SubSeq(v, 1, Len(v) - 6))]

(* ---- 256-bit hashes as hex *)
HexC(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
HexText(b) == [i \in 1..(2 * Len(b)) |-> LET x == b[(i + 1) \div 2] IN HexC(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
HexParse(s0, len) ==
  LET s == IF Len(s0) >= 2 /\ s0[1] = 48 /\ s0[2] = 120 THEN SubSeq(s0, 3, Len(s0)) ELSE s0 IN
  IF Len(s) # 2 * len \/ \E i \in 1..Len(s) : HexVal(s[i]) < 0 THEN NoneR
  ELSE [k |-> "bytes", v |-> [i \in 1..len |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]]
UserAgent(s) == IF Len(s) \in 1..24 /\ \A i \in 1..Len(s) : s[i] \in 33..126 THEN [k |-> "bytes", v |-> s] ELSE NoneR
ByteCmp(x, y) == LET S == {i \in 1..Len(x) : x[i] # y[i]} IN
  IF S = {} THEN 0 ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN IF x[m] < y[m] THEN -1 ELSE 1

Eval(a) ==
  CASE a.op = "b_enc" -> Encode(a.h, a.d)
    [] a.op = "b_dec" -> Decode(a.s)
    [] a.op = "h_hex" -> [k |-> "hex", v |-> HexText(a.d), rev |-> HexText(Reverse(a.d)), num |-> Pos(NFromLE(a.d))]
    [] a.op = "h_parse" -> HexParse(a.s, 32)
    [] a.op = "h_cmp" -> [k |-> "cmp", v |-> ByteCmp(a.d, a.e), eq |-> (a.d = a.e)]
    [] a.op = "ua" -> UserAgent(a.s)
=============================================================================
