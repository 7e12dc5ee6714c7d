---------------------------- MODULE ScriptsRunMC ----------------------------
(* I01: the interpreter stepping through all programs of several families, one state per executed instruction.          *)
EXTENDS Scripts, Json
CONSTANTS FAM, RICH
VARIABLES act, x
SmallCtx == [el |-> 5, st |-> 7, pk |-> 3, sz |-> 24, mp |-> TRUE, mi |-> TRUE, lock |-> Int2(100), seq |-> Int2(50)]
Dflt == [SmallCtx EXCEPT !.el = 520, !.st = 1000, !.pk = 20, !.sz = 10000]
Mk(c, st, s) == [op |-> "run", c |-> c, st |-> st, s |-> s, h |-> <<>>]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Items(d) == [i \in 1..d |-> <<i + 1>>]
Tops == {<<>>, <<0>>, <<128>>, <<1>>, <<2>>, <<129>>, <<0, 0, 0, 0, 1>>, <<101>>, <<51>>, <<1, 0>>}
WithTop(d, t) == IF d = 0 THEN <<>> ELSE Append(Items(d - 1), t)
C(n) == Code[n]

Single == {Mk(c, WithTop(d, t), <<op>> \o tail) : c \in {SmallCtx, [SmallCtx EXCEPT !.mi = FALSE]}, d \in 0..8, t \in Tops,
           op \in 76..190 \cup {0, 255}, tail \in {<<>>}}
StackOps == {"DROP", "2DROP", "DUP", "2DUP", "3DUP", "OVER", "2OVER", "SWAP", "2SWAP", "2ROT", "NIP", "ROT", "TUCK", "PICK", "ROLL", "IFDUP",
             "DEPTH", "SIZE", "EQUAL", "TOALTSTACK", "FROMALTSTACK", "VERIFY", "ADD"}
Double == {Mk(SmallCtx, Items(d), <<C(a), C(b)>>) : d \in 0..7, a, b \in StackOps}
  \cup IF RICH THEN {Mk(SmallCtx, Items(d), <<C(a), C(b), C(e)>>) : d \in 0..6, a, b, e \in StackOps} ELSE {}
Operands == {<<>>, <<0>>, <<128>>, <<1>>, <<129>>, <<2>>, <<1, 0>>, <<1, 128>>, <<255, 255, 255, 127>>, <<255, 255, 255, 255>>,
             <<254, 255, 255, 127>>, <<0, 0, 0, 128>>, <<255, 0>>, <<0, 0, 0, 0, 1>>, <<127>>, <<255>>}
BinOps == {"ADD", "SUB", "BOOLAND", "BOOLOR", "NUMEQUAL", "NUMEQUALVERIFY", "NUMNOTEQUAL", "LESSTHAN", "GREATERTHAN", "LESSTHANOREQUAL",
           "GREATERTHANOREQUAL", "MIN", "MAX", "EQUAL", "EQUALVERIFY"}
UnOps == {"1ADD", "1SUB", "NEGATE", "ABS", "NOT", "0NOTEQUAL", "VERIFY", "IFDUP", "SIZE", "CLTV", "CSV"}
Times == {<<99>>, <<100>>, <<101>>, <<49>>, <<50>>, <<51>>, <<0, 0, 0, 0, 1>>, <<0, 0, 0, 0, 129>>, <<0, 0, 0, 0, 0, 1>>, <<100, 0, 0, 0, 128>>,
          <<100, 0, 0, 0, 0>>, <<101, 0, 0, 0, 0>>}
Arith == {Mk(SmallCtx, <<a, b>>, <<C(o)>>) : a, b \in Operands, o \in BinOps}
  \cup {Mk(SmallCtx, <<a>>, <<C(o)>>) : a \in Operands \cup Times, o \in UnOps}
  \cup {Mk(SmallCtx, <<a, b, c>>, <<C("WITHIN")>>) : a, b, c \in {<<>>, <<1>>, <<2>>, <<129>>, <<255, 255, 255, 127>>, <<0, 0, 0, 0, 1>>}}
  \cup {Mk(SmallCtx, <<a, b>>, <<C(o), C(p)>>) : a, b \in {<<255, 255, 255, 127>>, <<1>>, <<255, 255, 255, 255>>}, o \in {"ADD", "SUB"}, p \in UnOps}
Branchy == {<<0>>, <<81>>, <<C("IF")>>, <<C("NOTIF")>>, <<C("ELSE")>>, <<C("ENDIF")>>, <<C("RETURN")>>, <<C("CAT")>>, <<C("DUP")>>,
            <<C("TOALTSTACK")>>, <<1, 7>>}
Branch == {Mk(c, st, Cat(p)) : c \in {SmallCtx}, st \in {<<>>, <<<<1>>, <<>>>>, <<<<>>, <<1>>>>}, p \in Seqs(Branchy, IF RICH THEN 5 ELSE 4)}
  \cup {Mk([SmallCtx EXCEPT !.mi = FALSE], <<<<2>>>>, Cat(p)) : p \in Seqs({<<C("IF")>>, <<C("NOTIF")>>, <<C("ELSE")>>, <<C("ENDIF")>>, <<81>>, <<0>>}, 5)}
Key == {<<1, 5>>, <<1, 6>>, <<2, 9, 9>>, <<3>>}
SigsFor(sub, sep) == {<<5, 255, 255>>, <<6, 255, 255>>, <<5, sub, sep>>, <<6, sub, 255>>, <<>>}
SigCtx == [SmallCtx EXCEPT !.el = 80, !.st = 30, !.pk = 4, !.sz = 400]
SigScripts == {<<C("CHECKMULTISIG")>>, <<C("CHECKMULTISIGVERIFY"), 81>>, <<C("NOP"), C("CODESEPARATOR"), C("CHECKMULTISIG")>>}
ChkScripts == {<<C("CHECKSIG")>>, <<C("CHECKSIGVERIFY")>>, <<C("CODESEPARATOR"), C("CHECKSIG"), C("NOP")>>,
               <<0, C("IF"), C("CODESEPARATOR"), C("ENDIF"), C("CHECKSIG")>>, <<81, C("IF"), C("CODESEPARATOR"), C("ENDIF"), C("CHECKSIG")>>,
               <<C("CODESEPARATOR"), C("CODESEPARATOR"), C("CHECKSIG")>>, <<C("CODESEPARATOR"), C("CHECKSIG"), C("CODESEPARATOR")>>}
Multis(keys, sigs) == {<<d>> \o sigs \o <<ns>> \o keys \o <<nk>> :
   d \in {<<>>, <<1>>}, ns \in {BuildInt(Int2(i)) : i \in {Len(sigs), Len(sigs) + 1, -1}} \cup {<<0, 0, 0, 0, 1>>}, nk \in {BuildInt(Int2(Len(keys)))}}
Sig == {Mk(SigCtx, st, s) : s \in SigScripts, st \in UNION {Multis(k, g) : k \in Seqs(Key, IF RICH THEN 3 ELSE 2), g \in Seqs(SigsFor(1, 1), 2)}}
  \cup {Mk(SigCtx, <<<<>>, <<>>>> \o [i \in 1..n |-> <<1, 5>>] \o <<nk>>, <<C("CHECKMULTISIG")>>) : n \in 0..5,
        nk \in {BuildInt(Int2(i)) : i \in -1..6} \cup {<<0, 0, 0, 0, 1>>}}
  \cup {Mk(SigCtx, <<g, k>>, s) : k \in Key, g \in {<<5, a, b>> : a \in 0..5 \cup {255}, b \in 0..5 \cup {255}} \cup {<<>>, <<5>>, <<6, 255, 255>>}, s \in ChkScripts}
(* scripts whose last separator stands after branches taken and not taken, with the signature that fits and its neighbours *)
SepParts == {<<C("NOP")>>, <<C("CODESEPARATOR")>>, <<2, 7, 7, C("DROP")>>, <<0, C("IF"), C("NOP"), C("CODESEPARATOR"), C("ENDIF")>>,
             <<81, C("IF"), C("CODESEPARATOR"), C("ELSE"), 1, 9, C("ENDIF")>>, <<0, C("NOTIF"), C("NOP"), C("ELSE"), C("CODESEPARATOR"), C("ENDIF")>>}
RECURSIVE CfgFrom(_, _, _)
CfgFrom(y, s, c) == IF Finished(y, s) THEN y ELSE CfgFrom(Step(y, s, c, <<>>), s, c)
SepSig(s, last, da, db) == LET y == CfgFrom(Cfg0(<<>>), s, [SigCtx EXCEPT !.mi = TRUE]) IN
  <<5, (Len(s) + Len(last) - y.sub + 1 + da) % 256, ((IF y.sep = -1 THEN 255 ELSE y.sep) + db) % 256>>
Seps == {Mk(SigCtx, <<SepSig(Cat(p), last, d[1], d[2]), <<1, 5>>>>, Cat(p) \o last) :
          p \in Seqs(SepParts, IF RICH THEN 4 ELSE 3), last \in {<<C("CHECKSIG")>>, <<C("CHECKSIGVERIFY"), 81>>}, d \in {<<0, 0>>, <<0, 1>>, <<0, 255>>, <<1, 0>>}}
Rep(b, n) == [i \in 1..n |-> b]
PushOf(n) == Slice(Rep(7, n))
Limits == {Mk(SmallCtx, <<>>, s) : s \in {PushOf(n) : n \in 0..7} \cup {<<0, C("IF")>> \o PushOf(n) \o <<C("ENDIF")>> : n \in 4..6}}
  \cup {Mk(SmallCtx, Items(d), Rep(C(o), n)) : d \in 0..9, o \in {"NOP", "DUP", "TOALTSTACK"}, n \in {0, 1, 2, 23, 24, 25}}
  \cup {Mk([SmallCtx EXCEPT !.mp = FALSE], <<>>, <<76, n>> \o Rep(7, n)) : n \in 0..6}
  \cup {Mk(Dflt, <<>>, PushOf(n)) : n \in {75, 76, 255, 256, 519, 520, 521}}
  \cup {Mk(Dflt, Rep(<<>>, n), <<C(o)>>) : n \in {998, 999, 1000, 1001}, o \in {"NOP", "DUP", "TOALTSTACK", "2DUP", "DEPTH"}}
  \cup {Mk(Dflt, <<>>, Rep(C("NOP"), n)) : n \in IF RICH THEN {9999, 10000, 10001} ELSE {10001}}
Acts == CASE FAM = 1 -> Single [] FAM = 2 -> Double [] FAM = 3 -> Arith [] FAM = 4 -> Branch [] FAM = 5 -> Sig [] FAM = 6 -> Limits [] FAM = 7 -> Seps

Out(a, y) == IF TooLong(a.s, a.c) THEN [k |-> "err", e |-> "ScriptSize"] ELSE Verdict(y)
Done(a, y) == TooLong(a.s, a.c) \/ Finished(y, a.s)
Emit(a, y) == Done(a, y) => PrintT(ToJson([s |-> 0, a |-> a, o |-> Out(a, y), t |-> 0]))
Init == act \in Acts /\ x = Cfg0(act.st) /\ Emit(act, x)
Next == ~Done(act, x) /\ x' = Step(x, act.s, act.c, act.h) /\ Emit(act, x') /\ UNCHANGED act
Spec == Init /\ [][Next]_<<act, x>>

WithinLimits == x.e = "" => Len(x.st) + Len(x.alt) <= (IF x.p = 1 THEN Len(act.st) ELSE act.c.st)
Advances == x.e = "" => x.p >= x.n + 1 /\ x.p <= Len(act.s) + 1       \* every step consumes input, so every run ends
NoInvention == FAM = 2 /\ x.e = "" => \A i \in 1..Len(x.st) : Len(x.st[i]) <= 5
SameAsRun == Done(act, x) => Out(act, x) = Run(act.st, act.s, act.c, act.h)
=============================================================================
