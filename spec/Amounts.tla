------------------------------ MODULE Amounts ------------------------------
(* Coin amounts (common/src/primitives/amount): unsigned and signed integers of W bits whose operations are exact or    *)
(* answer "none".  Integers are those of BigNum.                                                                        *)
EXTENDS BigNum, TLC
W == 128
Val(v) == [k |-> "val", v |-> v]
NoneR == [k |-> "none"]
U(v) == IF IFitsU(v, W) THEN Val(v) ELSE NoneR
S(v) == IF IFitsS(v, W) THEN Val(v) ELSE NoneR
IsZero(v) == v.mag = <<>>
(* The bit pattern of the amount, W bits. *)
ShlP(m, k) == NMod2(NShl(m, k), W)

EvalU(a) ==
  CASE a.op = "add" -> U(IAdd(a.a, a.b))
    [] a.op = "sub" -> U(ISub(a.a, a.b))
    [] a.op = "mul" -> U(IMul(a.a, a.b))
    [] a.op = "div" -> IF IsZero(a.b) THEN NoneR ELSE U(IDivT(a.a, a.b))
    [] a.op = "rem" -> IF IsZero(a.b) THEN NoneR ELSE U(IRemT(a.a, a.b))
    [] a.op \in {"and", "and_assign"} -> Val(Pos(NAnd(a.a.mag, a.b.mag)))
    [] a.op \in {"or", "or_assign"} -> Val(Pos(NOr(a.a.mag, a.b.mag)))
    [] a.op \in {"xor", "xor_assign"} -> Val(Pos(NXor(a.a.mag, a.b.mag)))
    [] a.op = "not" -> Val(Pos(NNot(a.a.mag, W)))
    [] a.op = "shl" -> IF a.n >= W THEN NoneR ELSE Val(Pos(ShlP(a.a.mag, a.n)))
    [] a.op = "shr" -> IF a.n >= W THEN NoneR ELSE Val(Pos(NShr(a.a.mag, a.n)))
    [] a.op \in {"to_signed", "signed_from_unsigned"} -> S(a.a)
    [] a.op = "abs_diff" -> Val(Pos(ISub(a.a, a.b).mag))
    [] a.op = "non_zero" -> IF IsZero(a.a) THEN NoneR ELSE Val(a.a)
    [] a.op = "cmp" -> [k |-> "cmp", v |-> ICmp(a.a, a.b), eq |-> (a.a = a.b)]
    [] a.op \in {"sum", "sum_macro"} ->
         LET r == FoldLeft(LAMBDA acc, x : IF acc.k = "none" THEN acc ELSE U(IAdd(acc.v, x)), Val(I0), a.l) IN r
EvalS(a) ==
  CASE a.op = "add" -> S(IAdd(a.a, a.b))
    [] a.op = "sub" -> S(ISub(a.a, a.b))
    [] a.op = "mul" -> S(IMul(a.a, a.b))
    [] a.op = "div" -> IF IsZero(a.b) THEN NoneR ELSE S(IDivT(a.a, a.b))
    [] a.op = "rem" -> IF IsZero(a.b) THEN NoneR ELSE S(IRemT(a.a, a.b))
    [] a.op = "neg" -> S(INeg(a.a))
    [] a.op \in {"to_unsigned", "unsigned_from_signed"} -> U(a.a)
    [] a.op = "cmp" -> [k |-> "cmp", v |-> ICmp(a.a, a.b), eq |-> (a.a = a.b)]
    [] a.op = "sum" -> FoldLeft(LAMBDA acc, x : IF acc.k = "none" THEN acc ELSE S(IAdd(acc.v, x)), Val(I0), a.l)
Eval(a) == IF a.t = "u" THEN EvalU(a) ELSE EvalS(a)
=============================================================================
