------------------------------ MODULE BigNum ------------------------------
(* Exact integers of any size for TLC, whose own integers have 32 bits.                                                *)
(* A natural number is the sequence of its limbs in base B, least significant first, without leading zeros; 0 is <<>>.   *)
(* An integer is [neg, mag]; 0 is never negative. BigNumMC checks every operator against TLC's integers for small B.     *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
LB == 12        \* bits per limb
B == 4096       \* 2^LB; products of limbs summed over 128 columns fit in 31 bits

Upto(n) == [i \in 1..n |-> i]
Downfrom(n) == [i \in 1..n |-> n + 1 - i]
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
D(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
Strip(a) == LET S == {i \in 1..Len(a) : a[i] # 0} IN IF S = {} THEN <<>> ELSE SubSeq(a, 1, CHOOSE i \in S : \A j \in S : j <= i)

RECURSIVE NFromInt(_)
NFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NFromInt(n \div B)
RECURSIVE NToInt(_)
NToInt(a) == IF a = <<>> THEN 0 ELSE Head(a) + B * NToInt(Tail(a))       \* only for values below 2^31

(* -1, 0, 1 *)
NCmp(a, b) ==
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET S == {i \in 1..Len(a) : a[i] # b[i]} IN
       IF S = {} THEN 0 ELSE LET m == CHOOSE i \in S : \A j \in S : j <= i IN IF a[m] < b[m] THEN -1 ELSE 1
NLe(a, b) == NCmp(a, b) <= 0
NLt(a, b) == NCmp(a, b) < 0
NMax(a, b) == IF NLe(a, b) THEN b ELSE a

(* Normalise a sequence of small non-negative column sums. *)
Carry(cols) ==
  LET r == FoldLeft(LAMBDA acc, x : LET s == x + acc[1] IN <<s \div B, Append(acc[2], s % B)>>, <<0, <<>>>>, cols)
  IN Strip(r[2] \o NFromInt(r[1]))
NAdd(a, b) == Carry([i \in 1..MaxI(Len(a), Len(b)) |-> D(a, i) + D(b, i)])
NSub(a, b) ==   \* a >= b
  LET r == FoldLeft(LAMBDA acc, i : LET s == D(a, i) - D(b, i) - acc[1]
                                    IN IF s < 0 THEN <<1, Append(acc[2], s + B)>> ELSE <<0, Append(acc[2], s)>>,
                    <<0, <<>>>>, Upto(Len(a)))
  IN Strip(r[2])
NMulSmall(a, k) == Carry([i \in 1..Len(a) |-> a[i] * k])      \* 0 <= k <= B
ColSum(a, b, k) == FoldLeft(LAMBDA acc, i : acc + a[i] * D(b, k + 1 - i), 0, Upto(MinI(Len(a), k)))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> ColSum(a, b, k)])

NDivSmall(a, k) ==   \* 0 < k < B: <<quotient, remainder (small)>>
  LET r == FoldLeft(LAMBDA acc, i : LET s == acc[1] * B + a[i] IN <<s % k, <<s \div k>> \o acc[2]>>,
                    <<0, <<>>>>, Downfrom(Len(a)))
  IN <<Strip(r[2]), r[1]>>
(* One digit of the quotient: rem < v * B; estimate from the leading limbs, then correct (v is normalised). *)
RECURSIVE DigitFix(_, _, _)
DigitFix(rem, v, q) == LET p == NMulSmall(v, q) IN IF NLe(p, rem) THEN <<q, NSub(rem, p)>> ELSE DigitFix(rem, v, q - 1)
DigitOf(rem, v) ==
  IF NLt(rem, v) THEN <<0, rem>>
  ELSE LET n == Len(v)
           q == MinI(B - 1, (D(rem, n + 1) * B + D(rem, n)) \div v[n])
       IN DigitFix(rem, v, q)
NDivMod(a, b) ==   \* b # 0
  IF NLt(a, b) THEN <<<<>>, a>>
  ELSE IF Len(b) = 1 THEN LET r == NDivSmall(a, b[1]) IN <<r[1], NFromInt(r[2])>>
  ELSE LET d == B \div (b[Len(b)] + 1)
           u == NMulSmall(a, d)
           v == NMulSmall(b, d)
           r == FoldLeft(LAMBDA acc, i : LET x == DigitOf(Strip(<<u[i]>> \o acc[1]), v)
                                         IN <<x[2], <<x[1]>> \o acc[2]>>,
                         <<<<>>, <<>>>>, Downfrom(Len(u)))
       IN <<Strip(r[2]), NDivSmall(r[1], d)[1]>>
NDiv(a, b) == NDivMod(a, b)[1]
NMod(a, b) == NDivMod(a, b)[2]

NPow2(k) == [i \in 1..(k \div LB + 1) |-> IF i = k \div LB + 1 THEN 2^(k % LB) ELSE 0]
NShl(a, k) == IF a = <<>> THEN <<>> ELSE [i \in 1..(k \div LB) |-> 0] \o NMulSmall(a, 2^(k % LB))
NShr(a, k) == IF k \div LB >= Len(a) THEN <<>> ELSE NDivSmall(SubSeq(a, k \div LB + 1, Len(a)), 2^(k % LB))[1]
NMod2(a, k) ==   \* a mod 2^k
  Strip([i \in 1..MinI(Len(a), k \div LB + 1) |-> IF i = k \div LB + 1 THEN a[i] % 2^(k % LB) ELSE a[i]])
RECURSIVE BitsOf(_)
BitsOf(x) == IF x = 0 THEN 0 ELSE 1 + BitsOf(x \div 2)
NBits(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * LB + BitsOf(a[Len(a)])
NBit(a, k) == (D(a, k \div LB + 1) \div 2^(k % LB)) % 2
NMaxOf(bits) == NSub(NPow2(bits), <<1>>)
NFits(a, bits) == NBits(a) <= bits
NAnd(a, b) == Strip([i \in 1..MinI(Len(a), Len(b)) |-> a[i] & b[i]])
NOr(a, b) == [i \in 1..MaxI(Len(a), Len(b)) |-> D(a, i) | D(b, i)]
NXor(a, b) == Strip([i \in 1..MaxI(Len(a), Len(b)) |-> D(a, i) ^^ D(b, i)])
NNot(a, bits) == NSub(NMaxOf(bits), a)
RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN <<1>> ELSE IF k % 2 = 0 THEN NPow(NMul(a, a), k \div 2) ELSE NMul(a, NPow(a, k - 1))
Ten(k) == NPow(<<10>>, k)

(* Digits, most significant first, in a base up to B. *)
NFromDigits(ds, base) == FoldLeft(LAMBDA acc, d : NAdd(NMulSmall(acc, base), NFromInt(d)), <<>>, ds)
RECURSIVE NDigitsRev(_, _)
NDigitsRev(a, base) == IF a = <<>> THEN <<>> ELSE LET r == NDivSmall(a, base) IN <<r[2]>> \o NDigitsRev(r[1], base)
NDigits(a, base) == IF a = <<>> THEN <<0>> ELSE Reverse(NDigitsRev(a, base))
NFromBE(bytes) == NFromDigits(bytes, 256)
NFromLE(bytes) == NFromBE(Reverse(bytes))
Pad(s, n) == s \o [i \in 1..MaxI(0, n - Len(s)) |-> 0]
NToLE(a, n) == Pad(NDigitsRev(a, 256), n)
NToBE(a, n) == Reverse(NToLE(a, n))

(* Integers *)
I0 == [neg |-> FALSE, mag |-> <<>>]
Int2(n) == [neg |-> n < 0, mag |-> NFromInt(IF n < 0 THEN -n ELSE n)]
MkI(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
INeg(a) == MkI(~a.neg, a.mag)
IAdd(a, b) == IF a.neg = b.neg THEN MkI(a.neg, NAdd(a.mag, b.mag))
              ELSE IF NLe(b.mag, a.mag) THEN MkI(a.neg, NSub(a.mag, b.mag)) ELSE MkI(b.neg, NSub(b.mag, a.mag))
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == MkI(a.neg # b.neg, NMul(a.mag, b.mag))
IDivT(a, b) == MkI(a.neg # b.neg, NDiv(a.mag, b.mag))        \* towards zero
IRemT(a, b) == MkI(a.neg, NMod(a.mag, b.mag))
ICmp(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1) ELSE IF a.neg THEN NCmp(b.mag, a.mag) ELSE NCmp(a.mag, b.mag)
IMinS(bits) == [neg |-> TRUE, mag |-> NPow2(bits - 1)]
IMaxS(bits) == [neg |-> FALSE, mag |-> NMaxOf(bits - 1)]
IFitsS(a, bits) == ICmp(IMinS(bits), a) <= 0 /\ ICmp(a, IMaxS(bits)) <= 0
IFitsU(a, bits) == ~a.neg /\ NFits(a.mag, bits)
Pos(n) == [neg |-> FALSE, mag |-> n]
===========================================================================
