------------------------------ MODULE Holders ------------------------------
(* Small state holders: a set-once flag, an atomic integer, a two-dimensional array, destructors that run once.          *)
(* An atomic holds the little-endian bytes of its value; arithmetic is modulo its width.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, Bitwise, TLC
Width(ty) == CASE ty \in {"bool", "i8", "u8"} -> 1 [] ty \in {"i16", "u16"} -> 2 [] ty \in {"i32", "u32"} -> 4 [] OTHER -> 8
Signed(ty) == ty \in {"i8", "i16", "i32", "i64", "isize"}
Zeros(n) == [i \in 1..n |-> 0]
Zip(f(_, _), x, y) == [i \in 1..Len(x) |-> f(x[i], y[i])]
RECURSIVE AddC(_, _, _, _)
AddC(x, y, i, c) == IF i > Len(x) THEN <<>> ELSE LET t == x[i] + y[i] + c IN <<t % 256>> \o AddC(x, y, i + 1, t \div 256)
Add(x, y) == AddC(x, y, 1, 0)
Inv(ty, x) == IF ty = "bool" THEN <<1 - x[1]>> ELSE [i \in 1..Len(x) |-> 255 - x[i]]
Sub(ty, x, y) == AddC(x, Inv(ty, y), 1, 1)
Less(ty, x, y) ==                      \* the most significant byte decides first; the sign bit counts backwards
  LET n == Len(x)
      key(v, i) == IF i = n /\ Signed(ty) THEN (v[i] + 128) % 256 ELSE v[i]
  IN \E i \in 1..n : key(x, i) < key(y, i) /\ \A j \in (i + 1)..n : x[j] = y[j]
Plus(ty, x, y) == IF ty = "bool" THEN <<(x[1] + y[1]) % 2>> ELSE Add(x, y)
(* the value after, and the answer; a weak exchange may fail for no reason *)
AtRes(ty, v, f, x, y) ==
  LET was(n) == {<<n, [k |-> "val", v |-> v]>>}
      yes(n) == <<n, [k |-> "ok", v |-> v]>>
      no == <<v, [k |-> "err", v |-> v]>>
  IN
  CASE f \in {"load", "inner"} -> was(v)
    [] f = "store" -> {<<x, [k |-> "ok"]>>}
    [] f = "swap" -> was(x)
    [] f = "cas" -> {IF v = x THEN yes(y) ELSE no}
    [] f = "casw" -> {IF v = x THEN yes(y) ELSE no} \cup {no}
    [] f = "update" -> {IF v = y THEN no ELSE yes(Plus(ty, v, x))}
    [] f = "and" -> was(Zip(LAMBDA p, q : p & q, v, x))
    [] f = "nand" -> was(Inv(ty, Zip(LAMBDA p, q : p & q, v, x)))
    [] f = "or" -> was(Zip(LAMBDA p, q : p | q, v, x))
    [] f = "xor" -> was(Zip(LAMBDA p, q : p ^^ q, v, x))
    [] f = "add" -> was(Add(v, x))
    [] f = "sub" -> was(Sub(ty, v, x))
    [] f = "max" -> was(IF Less(ty, v, x) THEN x ELSE v)
    [] f = "min" -> was(IF Less(ty, x, v) THEN x ELSE v)
H0 == [flag |-> FALSE, arr |-> <<>>, cols |-> 0, ty |-> "u8", at |-> <<0>>, runs |-> 0, held |-> {}]
Yes == [k |-> "ok"]
HRes(s, a) ==
  LET one(t, o) == {<<t, o>>}
      inside == a.r < Len(s.arr) /\ a.c < s.cols
  IN
  CASE a.op = "flag_new" -> one([s EXCEPT !.flag = FALSE], Yes)
    [] a.op = "flag_test" -> one(s, [k |-> "bool", v |-> s.flag])
    [] a.op = "flag_set" -> one([s EXCEPT !.flag = TRUE], Yes)
    [] a.op = "flag_tas" -> one([s EXCEPT !.flag = TRUE], [k |-> "bool", v |-> s.flag])
    [] a.op = "arr_new" -> one([s EXCEPT !.arr = [i \in 1..a.r |-> [j \in 1..a.c |-> a.v]], !.cols = a.c], Yes)
    [] a.op = "arr_get" -> one(s, IF inside THEN [k |-> "num", v |-> s.arr[a.r + 1][a.c + 1]] ELSE [k |-> "panic"])
    [] a.op = "arr_set" -> IF inside THEN one([s EXCEPT !.arr[a.r + 1][a.c + 1] = a.v], Yes) ELSE one(s, [k |-> "panic"])
    [] a.op = "arr_rows" -> one(s, [k |-> "rows", v |-> s.arr, r |-> Len(s.arr), c |-> s.cols])
    [] a.op = "arr_fill" -> one(IF a.r < Len(s.arr) THEN [s EXCEPT !.arr[a.r + 1] = [j \in 1..s.cols |-> a.v]] ELSE s, Yes)
    [] a.op = "arr_clone" -> one(s, Yes)
    [] a.op = "at_new" -> one([s EXCEPT !.ty = a.ty, !.at = IF a.how = "default" THEN Zeros(Width(a.ty)) ELSE a.v], Yes)
    [] a.op = "at" -> {<<[s EXCEPT !.at = r[1]], r[2]>> : r \in AtRes(s.ty, s.at, a.f, a.x, a.y)}
    [] a.op = "once_new" -> one([s EXCEPT !.held = @ \cup {a.i}], [k |-> "num", v |-> s.runs])
    [] a.op \in {"once_drop", "once_unwind"} -> one([s EXCEPT !.held = @ \ {a.i}, !.runs = @ + 1], [k |-> "num", v |-> s.runs + 1])
HAllowed(s, a) ==
  CASE a.op = "once_new" -> a.i \notin s.held
    [] a.op \in {"once_drop", "once_unwind"} -> a.i \in s.held
    [] a.op \in {"arr_get", "arr_set", "arr_rows", "arr_fill", "arr_clone"} -> s.cols > 0
    [] OTHER -> TRUE
=============================================================================
