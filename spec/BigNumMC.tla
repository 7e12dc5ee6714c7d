----------------------------- MODULE BigNumMC -----------------------------
(* Every operator of BigNum against TLC's own integers, exhaustively, with a small base (cfg: B <- MCB, LB <- MCLB). *)
EXTENDS BigNum, TLC
CONSTANTS MCB, MCLB, MAXV
VARIABLES x, y
Init == x \in 0..MAXV /\ y \in 0..MAXV
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
N(n) == NFromInt(n)
RECURSIVE Bin(_, _, _, _)
Bin(Op(_, _), a, b, k) == IF k = 0 THEN 0 ELSE Op(a % 2, b % 2) + 2 * Bin(Op, a \div 2, b \div 2, k - 1)
AndB(a, b) == IF a = 1 /\ b = 1 THEN 1 ELSE 0
OrB(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE 0
XorB(a, b) == IF a # b THEN 1 ELSE 0
Sgn(n) == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1
TruncDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Right ==
  /\ NToInt(N(x)) = x
  /\ NCmp(N(x), N(y)) = Sgn(x - y)
  /\ NAdd(N(x), N(y)) = N(x + y)
  /\ (x >= y => NSub(N(x), N(y)) = N(x - y))
  /\ NMul(N(x), N(y)) = N(x * y)
  /\ (y > 0 => NDivMod(N(x), N(y)) = <<N(x \div y), N(x % y)>>)
  /\ (y > 0 /\ x * y < 100000 => NDivMod(N(x * x * 3 + x), N(y)) = <<N((x * x * 3 + x) \div y), N((x * x * 3 + x) % y)>>)
  /\ (y < 12 => NPow2(y) = N(2^y) /\ NShl(N(x), y) = N(x * 2^y) /\ NShr(N(x), y) = N(x \div 2^y)
                /\ NMod2(N(x), y) = N(x % 2^y) /\ NBit(N(x), y) = (x \div 2^y) % 2
                /\ (NBits(N(x)) <= y) = (x < 2^y))
  /\ NAnd(N(x), N(y)) = N(Bin(AndB, x, y, 12))
  /\ NOr(N(x), N(y)) = N(Bin(OrB, x, y, 12))
  /\ NXor(N(x), N(y)) = N(Bin(XorB, x, y, 12))
  /\ (x < 1024 => NNot(N(x), 10) = N(1023 - x))
  /\ NFromDigits(NDigits(N(x), 3), 3) = N(x)
  /\ \A s \in {-1, 1}, t \in {-1, 1} :
       LET a == s * x
           b == t * y IN
       /\ IAdd(Int2(a), Int2(b)) = Int2(a + b) /\ ISub(Int2(a), Int2(b)) = Int2(a - b)
       /\ IMul(Int2(a), Int2(b)) = Int2(a * b) /\ ICmp(Int2(a), Int2(b)) = Sgn(a - b)
       /\ (b # 0 => IDivT(Int2(a), Int2(b)) = Int2(TruncDiv(a, b))
                    /\ IRemT(Int2(a), Int2(b)) = Int2(a - b * TruncDiv(a, b)))
       /\ IFitsS(Int2(a), 4) = (a >= -8 /\ a <= 7) /\ IFitsU(Int2(a), 4) = (a >= 0 /\ a <= 15)
===========================================================================
