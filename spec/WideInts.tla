------------------------------ MODULE WideInts ------------------------------
(* Unsigned integers of 128, 256 and 512 bits (common/src/uint). Bytes and texts are sequences of 0..255.               *)
EXTENDS BigNum, TLC
Val(m) == [k |-> "val", v |-> Pos(m)]
NoneR == [k |-> "none"]
Fit(m, w) == IF NFits(m, w) THEN Val(m) ELSE NoneR
HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(m, w) == LET ds == NDigits(m, 16) IN [i \in 1..(w \div 4) |-> LET j == i - (w \div 4 - Len(ds)) IN IF j < 1 THEN 48 ELSE HexChar(ds[j])]
RECURSIVE Tz(_)
Tz(m) == IF m[1] % B = 0 THEN LB + Tz(Tail(m)) ELSE CHOOSE i \in 0..(LB - 1) : (m[1] \div 2^i) % 2 = 1 /\ m[1] % 2^i = 0
Words(m, w) == [i \in 1..(w \div 64) |-> Pos(NMod2(NShr(m, 64 * (i - 1)), 64))]

Conv(a) ==
  CASE a.op \in {"128to256", "128tou128", "256to512"} -> Val(a.a.mag)
    [] a.op = "512to256" -> Fit(a.a.mag, 256)
    [] a.op = "256tou128" -> Fit(a.a.mag, 128)
    [] a.op = "low128" -> Val(NMod2(a.a.mag, 128))
EvalW(a, w) ==
  LET x == a.a.mag
      y == a.b.mag
  IN
  CASE a.op \in {"add", "checked_add"} -> Fit(NAdd(x, y), w)
    [] a.op \in {"sub", "checked_sub"} -> IF NLt(x, y) THEN NoneR ELSE Val(NSub(x, y))
    [] a.op \in {"mul", "checked_mul"} -> Fit(NMul(x, y), w)
    [] a.op \in {"div", "checked_div"} -> IF y = <<>> THEN NoneR ELSE Val(NDiv(x, y))
    [] a.op \in {"rem", "checked_rem"} -> IF y = <<>> THEN NoneR ELSE Val(NMod(x, y))
    [] a.op = "widening_mul" -> LET p == NMul(x, y) IN [k |-> "pair", lo |-> Pos(NMod2(p, w)), hi |-> Pos(NShr(p, w))]
    [] a.op = "mul_u32" -> Val(NMod2(NMul(x, y), w))
    [] a.op = "shl" -> IF a.n >= w THEN Val(<<>>) ELSE Val(NMod2(NShl(x, a.n), w))
    [] a.op = "shr" -> IF a.n >= w THEN Val(<<>>) ELSE Val(NShr(x, a.n))
    [] a.op = "and" -> Val(NAnd(x, y))
    [] a.op = "or" -> Val(NOr(x, y))
    [] a.op = "xor" -> Val(NXor(x, y))
    [] a.op = "not" -> Val(NNot(x, w))
    [] a.op = "cmp" -> [k |-> "cmp", v |-> NCmp(x, y), eq |-> (x = y), p |-> NCmp(x, y)]
    [] a.op = "bits" -> [k |-> "int", v |-> NBits(x)]
    [] a.op = "bit" -> [k |-> "bool", v |-> (NBit(x, a.n) = 1)]
    [] a.op = "mask" -> Val(NMod2(x, a.n))
    [] a.op = "bit_slice" -> Val(NMod2(NShr(x, a.n), a.n2 - a.n))
    [] a.op = "trailing_zeros" -> [k |-> "int", v |-> IF x = <<>> THEN w ELSE Tz(x)]
    [] a.op = "to_le" -> [k |-> "bytes", v |-> NToLE(x, w \div 8)]
    [] a.op = "to_be" -> [k |-> "bytes", v |-> NToBE(x, w \div 8)]
    [] a.op = "from_le" -> IF Len(a.s) = w \div 8 THEN Val(NFromLE(a.s)) ELSE NoneR
    [] a.op = "from_be" -> IF Len(a.s) = w \div 8 THEN Val(NFromBE(a.s)) ELSE NoneR
    [] a.op \in {"from_u64", "from_u128"} -> Val(x)
    [] a.op = "low_u64" -> Val(NMod2(x, 64))
    [] a.op = "low_u32" -> Val(NMod2(x, 32))
    [] a.op = "hex" -> [k |-> "text", v |-> Hex(x, w)]
    [] a.op = "consts" -> [k |-> "consts", zero |-> I0, one |-> Pos(<<1>>), max |-> Pos(NMaxOf(w)), bits |-> w, dflt |-> I0,
                           bzero |-> I0, bone |-> Pos(<<1>>)]
    [] a.op = "words" -> [k |-> "words", v |-> Words(x, w), len |-> w \div 64, empty |-> FALSE, same |-> TRUE]
Eval(a) == IF "w" \in DOMAIN a THEN EvalW(a, a.w) ELSE Conv(a)
=============================================================================
