------------------------------- MODULE TextsMC -------------------------------
(* All small prefixes and data; every single-symbol change, swap of neighbours, insertion and removal in each of their   *)
(* texts; all small strings over a small alphabet.                                                                      *)
EXTENDS Texts, Json
CONSTANT N, LEN
VARIABLE act
Hrps == {<<97>>, <<49>>, <<65, 66>>, <<109, 116, 99>>, <<63, 126, 33>>}
Bad == {<<>>, <<97, 66>>, <<32>>, <<127>>, [i \in 1..84 |-> 97]}
Datas == UNION {[1..n -> {0, 1, 255}] : n \in 0..N} \cup {[i \in 1..20 |-> (37 * i) % 256], [i \in 1..33 |-> (91 * i + 5) % 256]}
Base == {EncodeWith(h, d, M32) : h \in {<<97>>, <<109, 116, 99>>}, d \in {<<>>, <<0>>, <<255, 1>>, [i \in 1..20 |-> (37 * i) % 256]}}
Upper(s) == [i \in 1..Len(s) |-> IF IsLow(s[i]) THEN s[i] - 32 ELSE s[i]]
Subst(s) == {[s EXCEPT ![i] = c] : i \in 1..Len(s), c \in {113, 112, 108, 49, 98, 32, 81, 122}}
Swap(s) == {[s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]] : i \in 1..(Len(s) - 1)}
Ins(s) == {SubSeq(s, 1, i) \o <<113>> \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s)}
Del(s) == {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s)}
Near == UNION {{s, Upper(s)} \cup Subst(s) \cup Swap(s) \cup Ins(s) \cup Del(s) : s \in Base}
Small == UNION {[1..n -> {97, 49, 113, 65}] : n \in 0..LEN}
Acts == {[op |-> "b_enc", h |-> h, d |-> d] : h \in Hrps \cup Bad, d \in Datas}
  \cup {[op |-> "b_dec", s |-> s] : s \in Near \cup Small}
  \cup {[op |-> "b_dec", s |-> EncodeWith(h, d, M32)] : h \in Hrps, d \in Datas}
  \cup {[op |-> "b_dec", s |-> EncodeWith(h, d, 1)] : h \in Hrps, d \in Datas}
  \cup {[op |-> "ua", s |-> s] : s \in {[i \in 1..n |-> c] : n \in {0, 1, 24, 25}, c \in {32, 33, 65, 126, 127, 48, 10}}}
Init == act \in Acts /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> Eval(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act
(* N05 *)
RoundTrip == act.op = "b_enc" => LET e == Encode(act.h, act.d) IN e.k = "text" =>
  Decode(e.v) = [k |-> "dec", h |-> [i \in 1..Len(act.h) |-> Lower(act.h[i])], d |-> act.d]
OneError == act.op = "b_dec" /\ act.s \in UNION {Subst(s) : s \in Base} /\ act.s \notin Base => Decode(act.s).k = "none"
OtherVariant == act.op = "b_dec" /\ (\E h \in {<<97>>, <<109, 116, 99>>}, d \in Datas : Len(d) < 3 /\ act.s = EncodeWith(h, d, 1)) => Decode(act.s).k = "none"
=============================================================================
