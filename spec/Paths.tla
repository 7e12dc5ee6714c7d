-------------------------------- MODULE Paths --------------------------------
(* Key derivation paths: sequences of child numbers [i: 0..2^31-1, h: hardened], their text and their bytes.             *)
EXTENDS Naturals, Sequences, TLC
MaxIndex == 2147483647
MaxDigits == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
Err == [k |-> "err"]
IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE LexLeq(_, _)
LexLeq(x, y) == IF x = <<>> THEN TRUE ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE LexLeq(Tail(x), Tail(y))
RECURSIVE Value(_, _)
Value(s, acc) == IF s = <<>> THEN acc ELSE Value(Tail(s), acc * 10 + (Head(s) - 48))
CanonicalIndex(s) ==
  /\ s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
  /\ Len(s) > 1 => s[1] # 48
  /\ Len(s) <= 10 /\ (Len(s) = 10 => LexLeq(s, MaxDigits))
ParseChild(s) ==
  LET h == s # <<>> /\ s[Len(s)] \in {39, 104}
      d == IF h THEN SubSeq(s, 1, Len(s) - 1) ELSE s
  IN IF CanonicalIndex(d) THEN [k |-> "ok", v |-> [i |-> Value(d, 0), h |-> h]] ELSE Err
RECURSIVE Split(_, _)
Split(s, cur) == IF s = <<>> THEN <<cur>> ELSE IF Head(s) = 47 THEN <<cur>> \o Split(Tail(s), <<>>) ELSE Split(Tail(s), Append(cur, Head(s)))
ParsePath(s) ==
  LET ps == Split(s, <<>>)
      cs == [i \in 1..(Len(ps) - 1) |-> ParseChild(ps[i + 1])]
  IN IF ps[1] = <<109>> /\ (\A i \in DOMAIN cs : cs[i].k = "ok") /\ Len(cs) <= 255
     THEN [k |-> "ok", v |-> [i \in DOMAIN cs |-> cs[i].v]] ELSE Err
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
ChildText(c) == Digits(c.i) \o (IF c.h THEN <<39>> ELSE <<>>)
ChildAlt(c) == Digits(c.i) \o (IF c.h THEN <<104>> ELSE <<>>)
RECURSIVE PathTail(_)
PathTail(p) == IF p = <<>> THEN <<>> ELSE <<47>> \o ChildText(Head(p)) \o PathTail(Tail(p))
PathText(p) == <<109>> \o PathTail(p)
BE(c) == <<(c.i \div 16777216) + (IF c.h THEN 128 ELSE 0), (c.i \div 65536) % 256, (c.i \div 256) % 256, c.i % 256>>
FromBE(b) == [i |-> (b[1] % 128) * 16777216 + b[2] * 65536 + b[3] * 256 + b[4], h |-> b[1] >= 128]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
PathBytes(p) == <<Len(p)>> \o Cat([i \in 1..Len(p) |-> BE(p[i])])
DecodePath(b) ==
  IF b = <<>> THEN Err ELSE IF Len(b) # 1 + 4 * b[1] THEN Err
  ELSE [k |-> "ok", v |-> [i \in 1..b[1] |-> FromBE(SubSeq(b, 4 * i - 2, 4 * i + 1))]]
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Extends(q, p) == IsPrefix(p, q) /\ Len(q) > Len(p)
PathFn(a) ==
  LET c == [i |-> a.i, h |-> a.h] IN
  CASE a.op = "path_parse" -> ParsePath(a.s)
    [] a.op = "child_parse" -> ParseChild(a.s)
    [] a.op = "path_text" -> [k |-> "ok", v |-> PathText(a.path), back |-> TRUE]
    [] a.op = "path_codec" -> [k |-> "ok", v |-> PathBytes(a.path), back |-> TRUE]
    [] a.op = "path_decode" -> DecodePath(a.b)
    [] a.op = "path_new" -> IF Len(a.path) > 255 THEN Err ELSE [k |-> "ok", v |-> a.path, len |-> Len(a.path), root |-> a.path = <<>>, empty |-> a.path = <<>>]
    [] a.op = "path_diff" -> IF Extends(a.path, a.sub) THEN [k |-> "ok", v |-> SubSeq(a.path, Len(a.sub) + 1, Len(a.path))] ELSE [k |-> "none"]
    [] a.op = "child_text" -> [k |-> "ok", v |-> ChildText(c), alt |-> ChildAlt(c)]
    [] a.op = "child_next" -> IF a.i = MaxIndex THEN Err ELSE [k |-> "ok", v |-> [c EXCEPT !.i = a.i + 1]]
    [] a.op = "child_be" -> [k |-> "ok", v |-> BE(c), back |-> TRUE]
    [] a.op = "u31_decode" -> IF Len(a.b) # 4 THEN Err ELSE IF a.b[4] >= 128 THEN Err ELSE [k |-> "ok", back |-> TRUE]
=============================================================================
