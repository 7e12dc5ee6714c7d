----------------------------- MODULE RpcTextsMC -----------------------------
(* R02: all short byte strings over the classes of UTF-8 bytes, all short texts over characters near the hexadecimal      *)
(* digits, and all combinations of text and hexadecimal of small values.                                                  *)
EXTENDS RpcTexts, Json
CONSTANT N
VARIABLE act
Classes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239, 240, 241, 244, 245, 255}
Strs(C, n) == UNION {[1..i -> C] : i \in 0..n}
Datas == Strs(Classes, N) \cup {<<a, b, c>> : a \in {224, 237, 240, 244, 225}, b \in {128, 143, 144, 159, 160, 191}, c \in {127, 128, 191, 192}}
  \cup {<<a, b, c, 128>> : a \in {240, 241, 244, 245}, b \in {143, 144, 128, 191}, c \in {128, 191, 65}}
Chars == {47, 48, 57, 58, 64, 65, 70, 71, 96, 97, 102, 103, 32, 120}
Vals == {<<>>, <<97>>, <<65>>, <<195, 169>>, <<97, 98>>}
Opts(X) == {[null |-> TRUE], [none |-> TRUE]} \cup {[some |-> x] : x \in X}
Hexes == {Hex(v) : v \in Vals} \cup {<<54>>, <<67, 51, 65, 57>> (* C3A9 *), <<54, 49, 54>>, <<122, 122>>, <<54, 103>>, <<48, 120, 54, 49>>, <<102, 102>>, <<54, 49, 48, 48>>}
Acts == {[op |-> o, d |-> d] : o \in {"hex_ser", "str_ser"}, d \in Datas}
  \cup {[op |-> o, t |-> t] : o \in {"hex_de", "hex_parse"}, t \in Strs(Chars, N + 1)}
  \cup {[op |-> "str_bare", t |-> t] : t \in Vals \cup Hexes}
  \cup {[op |-> "str_obj", text |-> t, hex |-> h] : t \in Opts(Vals \cup {<<54, 49>>}), h \in Opts(Hexes)}
Init == act \in Acts /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> Eval(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act
RoundTrip == act.op = "hex_ser" => Unhex(Hex(act.d)) = Bytes(act.d)
(* what a value shows of itself is accepted and means the same *)
Stable == act.op = "str_ser" => LET e == Eval(act) IN Obj(IF e.text = <<>> THEN [none |-> TRUE] ELSE [some |-> e.text[1]], [some |-> e.hex]) = Bytes(act.d)
=============================================================================
