------------------------------- MODULE Arith -------------------------------
(* Amounts of the ledger specifications: TLC's integers in exploration, BigNum values [neg, mag] in recorded traces.    *)
EXTENDS BigNum, TLC
CONSTANTS ZERO, CAP, THOUSAND, Add(_, _), Sub(_, _), Le(_, _), MulDiv(_, _, _)     \* MulDiv(a, b, c): floor(a * b / c), c > 0
Lt(a, b) == Le(a, b) /\ a # b
TAdd(a, b) == a + b
TSub(a, b) == a - b
TLe(a, b) == a <= b
TMulDiv(a, b, c) == (a * b) \div c
N2(m) == [neg |-> FALSE, mag |-> m]
GZero == N2(<<>>)
GThousand == N2(NFromInt(1000))
GCap == N2(NMaxOf(127))          \* balances are kept as signed 128-bit changes
GAdd(a, b) == N2(NAdd(a.mag, b.mag))
GSub(a, b) == N2(NSub(a.mag, b.mag))
GLe(a, b) == NLe(a.mag, b.mag)
GMulDiv(a, b, c) == N2(NDiv(NMul(a.mag, b.mag), c.mag))
=============================================================================
