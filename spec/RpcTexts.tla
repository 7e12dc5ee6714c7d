------------------------------ MODULE RpcTexts ------------------------------
(* Byte strings in RPC values: hexadecimal texts, and values given as text, as hexadecimal or both. Texts are byte        *)
(* sequences holding UTF-8.                                                                                               *)
EXTENDS Naturals, Sequences, TLC
IsDigit(c) == c \in 48..57
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 99
HexDigit(x) == IF x < 10 THEN 48 + x ELSE 87 + x
Hex(d) == [i \in 1..(2 * Len(d)) |-> LET b == d[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
Bad == [k |-> "bad"]
Unhex(t) == IF Len(t) % 2 = 1 \/ \E i \in 1..Len(t) : HexVal(t[i]) = 99 THEN Bad
            ELSE [k |-> "bytes", v |-> [i \in 1..(Len(t) \div 2) |-> 16 * HexVal(t[2 * i - 1]) + HexVal(t[2 * i])]]
(* well-formed UTF-8 (Unicode, table 3-7) *)
Cont(d, i) == i <= Len(d) /\ d[i] \in 128..191
RECURSIVE UtfFrom(_, _)
UtfFrom(d, i) ==
  IF i > Len(d) THEN TRUE
  ELSE LET c == d[i]
           second(lo, hi) == i + 1 <= Len(d) /\ d[i + 1] \in lo..hi
       IN CASE c \in 0..127 -> UtfFrom(d, i + 1)
            [] c \in 194..223 -> Cont(d, i + 1) /\ UtfFrom(d, i + 2)
            [] c \in 224..239 -> second(IF c = 224 THEN 160 ELSE 128, IF c = 237 THEN 159 ELSE 191) /\ Cont(d, i + 2) /\ UtfFrom(d, i + 3)
            [] c \in 240..244 -> second(IF c = 240 THEN 144 ELSE 128, IF c = 244 THEN 143 ELSE 191) /\ Cont(d, i + 2) /\ Cont(d, i + 3) /\ UtfFrom(d, i + 4)
            [] OTHER -> FALSE
Utf8(d) == UtfFrom(d, 1)
Bytes(d) == [k |-> "bytes", v |-> d]
Given(x) == "some" \in DOMAIN x
Obj(text, hex) ==
  LET h == IF Given(hex) THEN Unhex(hex.some) ELSE Bad IN
  IF Given(hex) /\ h = Bad THEN Bad
  ELSE IF ~Given(text) /\ ~Given(hex) THEN Bad
  ELSE IF ~Given(text) THEN h
  ELSE IF ~Given(hex) \/ h.v = text.some THEN Bytes(text.some) ELSE Bad
Eval(a) ==
  CASE a.op \in {"hex_de", "hex_parse"} -> Unhex(a.t)
    [] a.op = "hex_ser" -> [k |-> "texts", ser |-> Hex(a.d), shown |-> Hex(a.d), back |-> a.d]
    [] a.op = "str_bare" -> Bytes(a.t)
    [] a.op = "str_obj" -> Obj(a.text, a.hex)
    [] a.op = "str_ser" -> [k |-> "obj", text |-> IF Utf8(a.d) THEN <<a.d>> ELSE <<>>, hex |-> Hex(a.d), back |-> a.d, str |-> Utf8(a.d)]
=============================================================================
