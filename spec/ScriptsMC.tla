----------------------------- MODULE ScriptsMC -----------------------------
(* I02: numbers, building and parsing, standard forms. *)
EXTENDS Scripts, Json
CONSTANT RICH
VARIABLE act
Rep(b, n) == [i \in 1..n |-> b]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Pow(k) == Pos(NPow2(k))
Edge == UNION {{Pow(k), ISub(Pow(k), Int2(1)), IAdd(Pow(k), Int2(1))} : k \in {0, 3, 4, 6, 7, 8, 14, 15, 16, 22, 23, 24, 30, 31, 32, 39, 47, 55, 56, 62}}
Nums64 == {Int2(i) : i \in 0..(IF RICH THEN 1100 ELSE 300)} \cup Edge \cup {ISub(Pow(63), Int2(1)), ISub(Pow(63), Int2(2))}
All64 == Nums64 \cup {INeg(i) : i \in Nums64} \cup {INeg(Pow(63))}
Datas == {<<>>} \cup {<<b>> : b \in {0, 1, 2, 15, 16, 17, 80, 128, 129, 130, 255}} \cup {Rep(3, n) : n \in {2, 19, 20, 21, 32, 33, 65, 74, 75, 76, 77, 254, 255, 256, 257}}
BigDatas == {Rep(3, n) : n \in {65535, 65536}}
Steps == {[op |-> "int", v |-> Int2(i)] : i \in {-2, -1, 0, 1, 15, 16, 17, 127, 128, -128, 1000}} \cup {[op |-> "scriptint", v |-> Int2(i)] : i \in {-1, 0, 1, 16, 17}}
  \cup {[op |-> o, d |-> d] : o \in {"slice", "slice_min"}, d \in {<<>>, <<0>>, <<1>>, <<16>>, <<17>>, <<129>>, <<3, 4>>}}
  \cup {[op |-> "opcode", c |-> c] : c \in {0, 80, 81, 97, 105, 106, 118, 135, 156, 172, 174}} \cup {[op |-> "verify"]}
Froms == {<<>>, <<135>>, <<118, 172>>, <<1, 135>>, <<76, 1, 172>>, <<5, 174>>, <<156, 1>>, <<97, 174>>}
Bytes == {0, 1, 2, 3, 16, 76, 77, 78, 79, 81, 106, 129, 135}
Scr == Seqs(Bytes, IF RICH THEN 4 ELSE 3)
Truncs == UNION {{SubSeq(s, 1, k) : k \in 0..Len(s)} :
   s \in {<<76, 3, 1, 2, 3, 81>>, <<77, 2, 0, 1, 2, 97>>, <<78, 1, 0, 0, 0, 9, 97>>, <<77, 0, 1>> \o Rep(1, 256), <<75>> \o Rep(1, 75), <<76, 75>> \o Rep(1, 75),
          <<76, 76>> \o Rep(1, 76), <<77, 255, 0>> \o Rep(1, 255), <<78, 0, 1, 0, 0>> \o Rep(1, 256), <<78, 255, 255, 255, 255, 1>>, <<78, 0, 0, 0, 128, 1>>}}
H20 == Rep(9, 20)
Std == {P2pkh(H20), P2sh(H20), P2pk(Rep(2, 33)), P2pk(Rep(4, 65)), <<0>> \o Slice(H20), <<0>> \o Slice(Rep(8, 32)), <<81>> \o Slice(Rep(8, 32)), <<106>> \o Slice(<<1, 2>>),
        <<96, 2, 1, 1>>, <<0, 2, 1, 1>>, <<81, 40>> \o Rep(1, 40), <<81, 41>> \o Rep(1, 41), <<97, 2, 1, 1>>, <<80, 2, 1, 1>>, <<79, 2, 1, 1>>, <<1, 2, 1, 1>>, <<81, 1, 1>>, <<0, 1, 1>>}
Mut(s) == {s, Append(s, 0)} \cup {SubSeq(s, 1, Len(s) - 1), Tail(s)}
   \cup {[s EXCEPT ![i] = v] : i \in {1, 2, 3, Len(s) - 1, Len(s)}, v \in {s[1], 0, 20, 33, 97, 135, 136, 172, 19, 21, (s[2] + 1) % 256, (s[2] + 255) % 256}}
ReadIns == Seqs({0, 1, 127, 128, 129, 255}, IF RICH THEN 5 ELSE 4) \cup {Rep(255, n) : n \in 1..9} \cup {Rep(0, n) \o <<b>> : n \in 0..9, b \in {0, 1, 127, 128, 129, 255}}
Acts == {[op |-> "scriptint", v |-> i] : i \in All64}
  \cup {[op |-> "readint", s |-> s, n |-> n] : s \in ReadIns, n \in {4, 5, 8}} \cup {[op |-> "readint", s |-> BuildInt(i), n |-> 8] : i \in All64}
  \cup {[op |-> "readbool", s |-> s] : s \in ReadIns}
  \cup {[op |-> "readuint", s |-> s, n |-> n] : s \in Seqs({0, 1, 255}, 5), n \in {1, 2, 4}}
  \cup {[op |-> o, s |-> d] : o \in {"p2pk", "p2pkh", "p2sh", "new_op_return"}, d \in Datas}
  \cup {[op |-> "build", from |-> f, x |-> xs] : f \in Froms, xs \in Seqs(Steps, 2)}
  \cup {[op |-> "build", from |-> <<>>, x |-> <<[op |-> o, d |-> d], y>>] : o \in {"slice", "slice_min"}, d \in Datas \cup BigDatas, y \in {[op |-> "verify"], [op |-> "opcode", c |-> 97]}}
  \cup {[op |-> "build", from |-> <<>>, x |-> <<[op |-> o, v |-> i]>>] : o \in {"int", "scriptint"}, i \in All64}
  \cup {[op |-> "parse", s |-> s, min |-> m] : s \in Scr \cup Truncs, m \in BOOLEAN}
  \cup {[op |-> "asm", s |-> s] : s \in Scr \cup Truncs \cup {<<c>> : c \in 0..255}}
  \cup {[op |-> "forms", s |-> s] : s \in UNION {Mut(s) : s \in Std} \cup {<<c>> : c \in 0..255} \cup {<<>>}}
  \cup {[op |-> "opname", c |-> c] : c \in 0..255}
Init == act \in Acts /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> Eval(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act

(* the laws of I02 *)
NumbersRoundTrip == act.op = "scriptint" =>
  /\ (Len(BuildInt(act.v)) <= 8 => ReadInt(BuildInt(act.v), 8) = [v |-> act.v])
  /\ LET b == BuildInt(act.v) IN b # <<>> /\ b[Len(b)] % 128 = 0 => Len(b) > 1 /\ b[Len(b) - 1] >= 128      \* no shorter encoding
AsPush(x) ==   \* the instruction a builder step stands for
  CASE x.op = "int" -> IF x.v = I0 THEN [k |-> "push", d |-> <<>>] ELSE IF Small(x.v) > 0 THEN [k |-> "op", c |-> Small(x.v)] ELSE [k |-> "push", d |-> BuildInt(x.v)]
    [] x.op = "scriptint" -> [k |-> "push", d |-> BuildInt(x.v)]
    [] x.op = "slice" -> [k |-> "push", d |-> x.d]
    [] x.op = "slice_min" -> IF Len(x.d) = 1 /\ x.d[1] \in (1..16) \cup {129} THEN [k |-> "op", c |-> IF x.d[1] = 129 THEN 79 ELSE 80 + x.d[1]] ELSE [k |-> "push", d |-> x.d]
    [] x.op = "opcode" -> IF x.c = 0 THEN [k |-> "push", d |-> <<>>] ELSE [k |-> "op", c |-> x.c]
BuildParses == act.op = "build" /\ (\A i \in 1..Len(act.x) : act.x[i].op # "verify") =>
  Parse(Build(<<>>, act.x), FALSE) = [i \in 1..Len(act.x) |-> AsPush(act.x[i])]
MinimalBuildsPass == act.op = "build" /\ (\A i \in 1..Len(act.x) : act.x[i].op \notin {"verify", "slice", "scriptint"}) =>
  Parse(Build(<<>>, act.x), TRUE) = Parse(Build(<<>>, act.x), FALSE)
RECURSIVE Joined(_)
Joined(p) == IF p = <<>> THEN <<>> ELSE (IF p[1].k = "op" THEN <<p[1].c>> ELSE Slice(p[1].d)) \o Joined(Tail(p))
StrictIsCanonical == act.op = "parse" /\ act.min =>
  LET p == Parse(act.s, TRUE) IN (p # <<>> /\ p[Len(p)].k = "err") \/ Joined(p) = act.s
============================================================================
