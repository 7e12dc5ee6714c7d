------------------------------ MODULE Scripts ------------------------------
(* Stack scripts: byte encoding, numbers, standard forms, and the interpreter as a state machine over its instructions. *)
(* Bytes are 0..255, byte strings are sequences, numbers are BigNum integers.                                           *)
EXTENDS BigNum, FiniteSets, TLC

(* ---------------------------------------------------------------- opcodes *)
NameTab == <<            \* 76 .. 185
  "PUSHDATA1", "PUSHDATA2", "PUSHDATA4", "PUSHNUM_NEG1", "RESERVED", "PUSHNUM_1", "PUSHNUM_2", "PUSHNUM_3",
  "PUSHNUM_4", "PUSHNUM_5", "PUSHNUM_6", "PUSHNUM_7", "PUSHNUM_8", "PUSHNUM_9", "PUSHNUM_10", "PUSHNUM_11",
  "PUSHNUM_12", "PUSHNUM_13", "PUSHNUM_14", "PUSHNUM_15", "PUSHNUM_16", "NOP", "VER", "IF", "NOTIF", "VERIF",
  "VERNOTIF", "ELSE", "ENDIF", "VERIFY", "RETURN", "TOALTSTACK", "FROMALTSTACK", "2DROP", "2DUP", "3DUP", "2OVER",
  "2ROT", "2SWAP", "IFDUP", "DEPTH", "DROP", "DUP", "NIP", "OVER", "PICK", "ROLL", "ROT", "SWAP", "TUCK", "CAT",
  "SUBSTR", "LEFT", "RIGHT", "SIZE", "INVERT", "AND", "OR", "XOR", "EQUAL", "EQUALVERIFY", "RESERVED1", "RESERVED2",
  "1ADD", "1SUB", "2MUL", "2DIV", "NEGATE", "ABS", "NOT", "0NOTEQUAL", "ADD", "SUB", "MUL", "DIV", "MOD", "LSHIFT",
  "RSHIFT", "BOOLAND", "BOOLOR", "NUMEQUAL", "NUMEQUALVERIFY", "NUMNOTEQUAL", "LESSTHAN", "GREATERTHAN",
  "LESSTHANOREQUAL", "GREATERTHANOREQUAL", "MIN", "MAX", "WITHIN", "RIPEMD160", "SHA1", "SHA256", "HASH160",
  "HASH256", "CODESEPARATOR", "CHECKSIG", "CHECKSIGVERIFY", "CHECKMULTISIG", "CHECKMULTISIGVERIFY", "NOP1", "CLTV",
  "CSV", "NOP4", "NOP5", "NOP6", "NOP7", "NOP8", "NOP9", "NOP10" >>
RECURSIVE Show(_)
Show(n) == IF n < 10 THEN SubSeq("0123456789", n + 1, n + 1) ELSE Show(n \div 10) \o Show(n % 10)
Name(c) == IF c <= 75 THEN "PUSHBYTES" ELSE IF c <= 185 THEN NameTab[c - 75] ELSE "RETURN_N"
AsmName(c) == IF c = 0 THEN "OP_0" ELSE IF c <= 75 THEN "OP_PUSHBYTES_" \o Show(c) ELSE IF c <= 185 THEN "OP_" \o NameTab[c - 75] ELSE "OP_RETURN_" \o Show(c)
Code == [n \in {NameTab[i] : i \in 1..110} |-> CHOOSE c \in 76..185 : NameTab[c - 75] = n]
IllegalOps == {"VERIF", "VERNOTIF", "CAT", "SUBSTR", "LEFT", "RIGHT", "INVERT", "AND", "OR", "XOR", "2MUL", "2DIV", "MUL", "DIV", "MOD",
               "LSHIFT", "RSHIFT"}
ReturnOps == {"RESERVED", "VER", "RETURN", "RESERVED1", "RESERVED2", "RETURN_N"}
NoOps == {"NOP", "NOP1", "NOP4", "NOP5", "NOP6", "NOP7", "NOP8", "NOP9", "NOP10"}
Conditionals == {"IF", "NOTIF", "ELSE", "ENDIF"}
IsPushNum(c) == c = 79 \/ c \in 81..96
PushNum(c) == IF c = 79 THEN -1 ELSE c - 80

(* ---------------------------------------------------------------- numbers *)
BuildInt(i) ==
  IF i.mag = <<>> THEN <<>>
  ELSE LET d == NDigitsRev(i.mag, 256)
           top == d[Len(d)]
       IN IF top >= 128 THEN Append(d, IF i.neg THEN 128 ELSE 0)
          ELSE [d EXCEPT ![Len(d)] = top + (IF i.neg THEN 128 ELSE 0)]
NumErr == [e |-> "NumericOverflow"]
ReadInt(v, size) ==
  IF v = <<>> THEN [v |-> I0]
  ELSE IF Len(v) > size THEN NumErr
  ELSE LET neg == v[Len(v)] >= 128 IN [v |-> MkI(neg, NFromLE([v EXCEPT ![Len(v)] = @ % 128]))]
AsBool(v) == \E i \in 1..Len(v) : v[i] # 0 /\ ~(i = Len(v) /\ v[i] = 128)
ReadUint(v, size) == IF Len(v) < size THEN [e |-> "EarlyEndOfScript"] ELSE [v |-> Pos(NFromLE(SubSeq(v, 1, size)))]
IsErr(r) == "e" \in DOMAIN r

(* ---------------------------------------------------------------- parsing *)
Early == [k |-> "err", e |-> "EarlyEndOfScript"]
NonMin == [k |-> "err", e |-> "NonMinimalPush"]
Push(d, n) == [k |-> "push", d |-> d, n |-> n]
LenBytes(c) == IF c = 76 THEN 1 ELSE IF c = 77 THEN 2 ELSE 4
LenMin(c) == IF c = 76 THEN 76 ELSE IF c = 77 THEN 256 ELSE 65536
At(s, p, min) ==      \* the instruction at position p, n is the position after it
  LET c == s[p] left == Len(s) - p IN
  IF c <= 75 THEN
    IF left < c THEN Early
    ELSE IF min /\ c = 1 /\ s[p + 1] \in (1..16) \cup {129} THEN NonMin
    ELSE Push(SubSeq(s, p + 1, p + c), p + c + 1)
  ELSE IF c <= 78 THEN
    LET w == LenBytes(c) IN
    IF left < w THEN Early
    ELSE LET big == NFromLE(SubSeq(s, p + 1, p + w)) IN
         IF NLt(NFromInt(left - w), big) THEN Early
         ELSE LET n == NToInt(big) IN
              IF min /\ n < LenMin(c) THEN NonMin ELSE Push(SubSeq(s, p + w + 1, p + w + n), p + w + n + 1)
  ELSE [k |-> "op", c |-> c, n |-> p + 1]
RECURSIVE ParseFrom(_, _, _)
ParseFrom(s, p, min) ==
  IF p > Len(s) THEN <<>>
  ELSE LET i == At(s, p, min) IN
       IF i.k = "err" THEN <<i>>
       ELSE <<IF i.k = "push" THEN [k |-> "push", d |-> i.d] ELSE [k |-> "op", c |-> i.c]>> \o ParseFrom(s, i.n, min)
Parse(s, min) == ParseFrom(s, 1, min)

HexD(x) == SubSeq("0123456789abcdef", x + 1, x + 1)
Hex(d) == FoldLeft(LAMBDA acc, b : acc \o HexD(b \div 16) \o HexD(b % 16), "", d)
RECURSIVE AsmFrom(_, _)
AsmFrom(s, p) ==      \* words of the assembly text; the last element tells whether the script is complete
  IF p > Len(s) THEN <<"end">>
  ELSE LET i == At(s, p, FALSE) IN
       IF i.k = "err" THEN <<"truncated">>
       ELSE <<AsmName(s[p])>> \o (IF i.k = "push" /\ i.d # <<>> THEN <<Hex(i.d)>> ELSE <<>>) \o AsmFrom(s, i.n)

(* ---------------------------------------------------------------- building *)
LE(n, w) == NToLE(NFromInt(n), w)
Slice(d) == (IF Len(d) <= 75 THEN <<Len(d)>> ELSE IF Len(d) < 256 THEN <<76, Len(d)>>
             ELSE IF Len(d) < 65536 THEN <<77>> \o LE(Len(d), 2) ELSE <<78>> \o LE(Len(d), 4)) \o d
Small(i) == IF i = Int2(-1) THEN 79 ELSE IF i = I0 THEN 0 ELSE IF ~i.neg /\ NLe(i.mag, <<16>>) THEN 80 + NToInt(i.mag) ELSE -1
(* a builder: the bytes so far and the last opcode added as such, -1 if there is none *)
AddOp(b, c) == [s |-> Append(b.s, c), last |-> c]
AddBytes(b, x) == [s |-> b.s \o x, last |-> -1]
PushI(b, i) == IF Small(i) >= 0 THEN AddOp(b, Small(i)) ELSE AddBytes(b, Slice(BuildInt(i)))
VerifyForm == (135 :> 136) @@ (156 :> 157) @@ (172 :> 173) @@ (174 :> 175)
Build1(b, x) ==
  CASE x.op = "int" -> PushI(b, x.v)
    [] x.op = "scriptint" -> AddBytes(b, Slice(BuildInt(x.v)))
    [] x.op = "slice" -> AddBytes(b, Slice(x.d))
    [] x.op = "slice_min" -> IF Len(x.d) = 1 /\ x.d[1] = 129 THEN PushI(b, Int2(-1))
                             ELSE IF Len(x.d) = 1 /\ x.d[1] \in 1..16 THEN PushI(b, Int2(x.d[1])) ELSE AddBytes(b, Slice(x.d))
    [] x.op = "opcode" -> AddOp(b, x.c)
    [] x.op = "verify" -> IF b.last \in DOMAIN VerifyForm
                          THEN AddOp([b EXCEPT !.s = SubSeq(b.s, 1, Len(b.s) - 1)], VerifyForm[b.last]) ELSE AddOp(b, 105)
FromBytes(s) == LET p == Parse(s, FALSE) IN
  [s |-> s, last |-> IF p # <<>> /\ p[Len(p)].k = "op" THEN p[Len(p)].c ELSE -1]
Build(from, xs) == FoldLeft(Build1, FromBytes(from), xs).s

(* ---------------------------------------------------------------- standard forms *)
P2pkh(h) == <<118, 169>> \o Slice(h) \o <<136, 172>>
P2sh(h) == <<169>> \o Slice(h) \o <<135>>
P2pk(k) == Append(Slice(k), 172)
Form(s, pre, mid, post) ==   \* pre, then mid bytes, then post
  Len(s) = Len(pre) + mid + Len(post) /\ SubSeq(s, 1, Len(pre)) = pre /\ SubSeq(s, Len(s) - Len(post) + 1, Len(s)) = post
Forms(s) ==
  [p2sh |-> Form(s, <<169, 20>>, 20, <<135>>), p2pkh |-> Form(s, <<118, 169, 20>>, 20, <<136, 172>>),
   p2pk |-> Form(s, <<33>>, 33, <<172>>) \/ Form(s, <<65>>, 65, <<172>>),
   witness |-> Len(s) \in 4..42 /\ s[1] \in {0} \cup 81..96 /\ s[2] \in 2..40 /\ Len(s) = s[2] + 2,
   p2wsh |-> Form(s, <<0, 32>>, 32, <<>>), p2wpkh |-> Form(s, <<0, 20>>, 20, <<>>),
   op_return |-> s # <<>> /\ s[1] = 106,
   unspendable |-> s # <<>> /\ Name(s[1]) \in ReturnOps \cup IllegalOps, len |-> Len(s), empty |-> s = <<>>]

(* ---------------------------------------------------------------- interpreter *)
(* limits c: el (bytes per element), st (elements), pk (keys per multisig), sz (script bytes); mp, mi: minimal pushes and *)
(* conditions; lock, seq: the time lock conditions hold for operands up to these. h: table of hash values.               *)
(* The signature scheme of the test context: a key is <<1, k>>, <<2, ...>> is a reserved form, anything else malformed; a  *)
(* signature for key k is <<k, a, b>>, valid if a is the length of the signed part of the script and b the index of the   *)
(* last separator (both modulo 256), or if both are 255.                                                                  *)
Cfg0(stack) == [st |-> stack, alt |-> <<>>, ex |-> <<>>, sub |-> 1, sep |-> -1, n |-> 0, p |-> 1, e |-> ""]
Executing(x) == \A i \in 1..Len(x.ex) : x.ex[i]
Fail(x, e) == [x EXCEPT !.e = e]
NotEnough(x) == Fail(x, "NotEnoughElementsOnStack")
T(x, i) == x.st[Len(x.st) - i]                       \* i-th element from the top, from 0
Below(x, n) == SubSeq(x.st, 1, Len(x.st) - n)
Put(x, n, items) == [x EXCEPT !.st = Below(x, n) \o items]    \* replaces the n top elements
BoolItem(b) == IF b THEN <<1>> ELSE <<>>
PutInt(x, n, i) == Put(x, n, <<BuildInt(i)>>)
Shuffle(x, n, idx) ==          \* the n top elements, numbered from the bottom of these, replaced by the ones listed
  IF Len(x.st) < n THEN NotEnough(x)
  ELSE LET a == SubSeq(x.st, Len(x.st) - n + 1, Len(x.st)) IN Put(x, n, [i \in 1..Len(idx) |-> a[idx[i]]])
Num(x, i) == ReadInt(T(x, i), 4)
(* operands are read from the top downwards, the first that fails decides *)
Nums(x, n, f(_)) ==
  LET bad == {i \in 0..(n - 1) : i >= Len(x.st) \/ (i < Len(x.st) /\ IsErr(Num(x, i)))} IN
  IF bad # {} THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN IF i >= Len(x.st) THEN NotEnough(x) ELSE Fail(x, "NumericOverflow")
  ELSE f([i \in 1..n |-> Num(x, n - i).v])           \* operands in script order
Una(x, g(_)) == Nums(x, 1, LAMBDA v : PutInt(x, 1, g(v[1])))
Bin(x, g(_, _)) == Nums(x, 2, LAMBDA v : PutInt(x, 2, g(v[1], v[2])))
B2I(b) == IF b THEN Int2(1) ELSE I0
Verify(x) == IF x.e # "" THEN x ELSE IF x.st = <<>> THEN NotEnough(x)
             ELSE IF AsBool(T(x, 0)) THEN [x EXCEPT !.st = Below(x, 1)] ELSE Fail(x, "VerifyFail")
ILe(a, b) == ICmp(a, b) <= 0

Hashed(x, o, h) ==
  IF x.st = <<>> THEN NotEnough(x)
  ELSE LET S == {i \in 1..Len(h) : h[i].f = o /\ h[i].i = T(x, 0)} IN
       IF S = {} THEN Fail(x, "?") ELSE Put(x, 1, <<h[CHOOSE i \in S : TRUE].o>>)

KeyOf(b) == IF Len(b) = 2 /\ b[1] = 1 THEN b[2] ELSE IF b # <<>> /\ b[1] = 2 THEN -2 ELSE -1
SigOk(k, sig, x, s) ==
  Len(sig) = 3 /\ sig[1] = k /\
  ((sig[2] = 255 /\ sig[3] = 255) \/ (sig[2] = (Len(s) - x.sub + 1) % 256 /\ sig[3] = (IF x.sep = -1 THEN 255 ELSE x.sep % 256)))
RECURSIVE Multi(_, _, _, _)
Multi(sigs, keys, x, s) ==       \* "true", "false" or "PubkeyFormat"
  IF sigs = <<>> THEN "true"
  ELSE IF Len(keys) < Len(sigs) THEN "false"
  ELSE LET k == KeyOf(keys[1]) IN
       IF k = -1 THEN "PubkeyFormat"
       ELSE IF k = -2 \/ SigOk(k, sigs[1], x, s) THEN Multi(Tail(sigs), Tail(keys), x, s)
       ELSE Multi(sigs, Tail(keys), x, s)
Seg(x, i, n) == SubSeq(x.st, Len(x.st) - i - n + 1, Len(x.st) - i)     \* n elements below the i top ones
CheckSig(x, s) ==
  IF Len(x.st) < 2 THEN NotEnough(x)
  ELSE LET r == Multi(<<T(x, 1)>>, <<T(x, 0)>>, x, s) IN
       IF r = "PubkeyFormat" THEN Fail(x, r) ELSE Put(x, 2, <<BoolItem(r = "true")>>)
CheckMultisig(x, s, c) ==
  Nums(x, 1, LAMBDA v :
    IF v[1].neg \/ NLt(NFromInt(c.pk), v[1].mag) THEN Fail(x, "PubkeyCount")
    ELSE LET nk == NToInt(v[1].mag) IN
    IF Len(x.st) < nk + 2 THEN NotEnough(x)
    ELSE LET r == ReadInt(T(x, nk + 1), 4) IN
    IF IsErr(r) THEN Fail(x, r.e)
    ELSE IF r.v.neg \/ NLt(NFromInt(nk), r.v.mag) THEN Fail(x, "SigCount")
    ELSE LET ns == NToInt(r.v.mag) IN
    IF Len(x.st) < nk + ns + 2 THEN NotEnough(x)
    ELSE LET m == Multi(Seg(x, nk + 2, ns), Seg(x, 1, nk), x, s) IN
    IF m = "PubkeyFormat" THEN Fail(x, m)
    ELSE IF Len(x.st) < nk + ns + 3 THEN NotEnough(x)
    ELSE IF T(x, nk + ns + 2) # <<>> THEN Fail(x, "NullDummy")
    ELSE Put(x, nk + ns + 3, <<BoolItem(m = "true")>>))

Ordinary(x, o, s, c, h) ==
  CASE o = "VERIFY" -> Verify(x)
    [] o = "DROP" -> Shuffle(x, 1, <<>>)
    [] o = "2DROP" -> Shuffle(x, 2, <<>>)
    [] o = "DUP" -> Shuffle(x, 1, <<1, 1>>)
    [] o = "2DUP" -> Shuffle(x, 2, <<1, 2, 1, 2>>)
    [] o = "3DUP" -> Shuffle(x, 3, <<1, 2, 3, 1, 2, 3>>)
    [] o = "OVER" -> Shuffle(x, 2, <<1, 2, 1>>)
    [] o = "2OVER" -> Shuffle(x, 4, <<1, 2, 3, 4, 1, 2>>)
    [] o = "SWAP" -> Shuffle(x, 2, <<2, 1>>)
    [] o = "2SWAP" -> Shuffle(x, 4, <<3, 4, 1, 2>>)
    [] o = "2ROT" -> Shuffle(x, 6, <<3, 4, 5, 6, 1, 2>>)
    [] o = "NIP" -> Shuffle(x, 2, <<2>>)
    [] o = "ROT" -> Shuffle(x, 3, <<2, 3, 1>>)
    [] o = "TUCK" -> Shuffle(x, 2, <<2, 1, 2>>)
    [] o \in {"PICK", "ROLL"} ->
         Nums(x, 1, LAMBDA v :
           IF v[1].neg THEN Fail(x, "InvalidOperand")
           ELSE IF ~NLt(v[1].mag, NFromInt(Len(x.st) - 1)) THEN NotEnough(x)
           ELSE LET i == NToInt(v[1].mag) + 1
                    item == T(x, i)
                IN IF o = "PICK" THEN Put(x, 1, <<item>>)
                   ELSE [x EXCEPT !.st = Below(x, i + 1) \o Seg(x, 1, i - 1) \o <<item>>])
    [] o = "IFDUP" -> IF x.st = <<>> THEN NotEnough(x) ELSE IF AsBool(T(x, 0)) THEN Put(x, 0, <<T(x, 0)>>) ELSE x
    [] o = "DEPTH" -> PutInt(x, 0, Int2(Len(x.st)))
    [] o = "SIZE" -> IF x.st = <<>> THEN NotEnough(x) ELSE PutInt(x, 0, Int2(Len(T(x, 0))))
    [] o \in {"EQUAL", "EQUALVERIFY"} ->
         LET r == IF Len(x.st) < 2 THEN NotEnough(x) ELSE Put(x, 2, <<BoolItem(T(x, 0) = T(x, 1))>>) IN
         IF o = "EQUAL" THEN r ELSE Verify(r)
    [] o = "1ADD" -> Una(x, LAMBDA v : IAdd(v, Int2(1)))
    [] o = "1SUB" -> Una(x, LAMBDA v : ISub(v, Int2(1)))
    [] o = "NEGATE" -> Una(x, INeg)
    [] o = "ABS" -> Una(x, LAMBDA v : Pos(v.mag))
    [] o = "NOT" -> Una(x, LAMBDA v : B2I(v = I0))
    [] o = "0NOTEQUAL" -> Una(x, LAMBDA v : B2I(v # I0))
    [] o = "ADD" -> Bin(x, IAdd)
    [] o = "SUB" -> Bin(x, ISub)
    [] o = "BOOLAND" -> Bin(x, LAMBDA a, b : B2I(a # I0 /\ b # I0))
    [] o = "BOOLOR" -> Bin(x, LAMBDA a, b : B2I(a # I0 \/ b # I0))
    [] o = "NUMEQUAL" -> Bin(x, LAMBDA a, b : B2I(a = b))
    [] o = "NUMEQUALVERIFY" -> Verify(Bin(x, LAMBDA a, b : B2I(a = b)))
    [] o = "NUMNOTEQUAL" -> Bin(x, LAMBDA a, b : B2I(a # b))
    [] o = "LESSTHAN" -> Bin(x, LAMBDA a, b : B2I(~ILe(b, a)))
    [] o = "GREATERTHAN" -> Bin(x, LAMBDA a, b : B2I(~ILe(a, b)))
    [] o = "LESSTHANOREQUAL" -> Bin(x, LAMBDA a, b : B2I(ILe(a, b)))
    [] o = "GREATERTHANOREQUAL" -> Bin(x, LAMBDA a, b : B2I(ILe(b, a)))
    [] o = "MIN" -> Bin(x, LAMBDA a, b : IF ILe(a, b) THEN a ELSE b)
    [] o = "MAX" -> Bin(x, LAMBDA a, b : IF ILe(a, b) THEN b ELSE a)
    [] o = "WITHIN" -> Nums(x, 3, LAMBDA v : PutInt(x, 3, B2I(ILe(v[2], v[1]) /\ ~ILe(v[3], v[1]))))
    [] o \in {"RIPEMD160", "SHA1", "SHA256", "HASH160", "HASH256"} -> Hashed(x, o, h)
    [] o = "CHECKSIG" -> CheckSig(x, s)
    [] o = "CHECKSIGVERIFY" -> Verify(CheckSig(x, s))
    [] o = "CHECKMULTISIG" -> CheckMultisig(x, s, c)
    [] o = "CHECKMULTISIGVERIFY" -> Verify(CheckMultisig(x, s, c))
    [] o = "TOALTSTACK" -> IF x.st = <<>> THEN NotEnough(x) ELSE [x EXCEPT !.alt = Append(@, T(x, 0)), !.st = Below(x, 1)]
    [] o = "FROMALTSTACK" -> IF x.alt = <<>> THEN NotEnough(x)
                             ELSE [x EXCEPT !.st = Append(@, x.alt[Len(x.alt)]), !.alt = SubSeq(@, 1, Len(@) - 1)]
    [] o \in {"CLTV", "CSV"} ->
         IF x.st = <<>> THEN NotEnough(x)
         ELSE LET r == ReadInt(T(x, 0), 5) IN
              IF IsErr(r) THEN Fail(x, r.e) ELSE IF ILe(r.v, IF o = "CLTV" THEN c.lock ELSE c.seq) THEN x ELSE Fail(x, "TimeLock")
    [] o = "CODESEPARATOR" -> [x EXCEPT !.sub = x.p, !.sep = x.n]

Cond(x, o) ==
  CASE o \in {"IF", "NOTIF"} ->
         IF ~Executing(x) THEN [x EXCEPT !.ex = Append(@, FALSE)]
         ELSE IF x.st = <<>> THEN NotEnough(x)
         ELSE [x EXCEPT !.st = Below(x, 1), !.ex = Append(@, AsBool(T(x, 0)) # (o = "NOTIF"))]
    [] o = "ELSE" -> IF x.ex = <<>> THEN Fail(x, "UnbalancedIfElse") ELSE [x EXCEPT !.ex[Len(x.ex)] = ~@]
    [] o = "ENDIF" -> IF x.ex = <<>> THEN Fail(x, "UnbalancedIfElse") ELSE [x EXCEPT !.ex = SubSeq(@, 1, Len(@) - 1)]

(* One instruction. *)
Step(x0, s, c, h) ==
  LET i == At(s, x0.p, c.mp) IN
  IF i.k = "err" THEN Fail(x0, i.e)
  ELSE LET x == [x0 EXCEPT !.p = i.n]
           o == IF i.k = "op" THEN Name(i.c) ELSE ""
           y == IF i.k = "push" THEN IF Len(i.d) > c.el THEN Fail(x, "PushSize") ELSE IF Executing(x) THEN Put(x, 0, <<i.d>>) ELSE x
                ELSE IF o \in NoOps THEN x
                ELSE IF o \in IllegalOps THEN Fail(x, "IllegalOp")
                ELSE IF o \in {"IF", "NOTIF"} /\ Executing(x) /\ x.st # <<>> /\ c.mi /\ T(x, 0) \notin {<<>>, <<1>>} THEN Fail(x, "InvalidOperand")
                ELSE IF o \in Conditionals THEN Cond(x, o)
                ELSE IF ~Executing(x) THEN x
                ELSE IF o \in ReturnOps THEN Fail(x, "VerifyFail")
                ELSE IF IsPushNum(i.c) THEN PutInt(x, 0, Int2(PushNum(i.c)))
                ELSE Ordinary(x, o, s, c, h)
       IN IF y.e # "" THEN y
          ELSE IF Len(y.st) + Len(y.alt) > c.st THEN Fail(y, "StackSize")
          ELSE [y EXCEPT !.n = @ + 1]
Finished(x, s) == x.e # "" \/ x.p > Len(s)
Verdict(x) == IF x.e = "?" THEN [k |-> "any"] ELSE IF x.e # "" THEN [k |-> "err", e |-> x.e]
              ELSE IF x.ex # <<>> THEN [k |-> "err", e |-> "UnbalancedIfElse"] ELSE [k |-> "stack", v |-> x.st]
RECURSIVE RunFrom(_, _, _, _)
RunFrom(x, s, c, h) == IF Finished(x, s) THEN Verdict(x) ELSE RunFrom(Step(x, s, c, h), s, c, h)
TooLong(s, c) == Len(s) > c.sz
Run(stack, s, c, h) == IF TooLong(s, c) THEN [k |-> "err", e |-> "ScriptSize"] ELSE RunFrom(Cfg0(stack), s, c, h)

RECURSIVE PushesFrom(_, _, _, _)
PushesFrom(st, s, p, c) ==
  IF p > Len(s) THEN [k |-> "stack", v |-> st]
  ELSE LET i == At(s, p, c.mp) IN
       IF i.k = "err" THEN [k |-> "err", e |-> i.e]
       ELSE IF i.k = "push" /\ Len(i.d) > c.el THEN [k |-> "err", e |-> "PushSize"]
       ELSE IF i.k = "op" /\ ~IsPushNum(i.c) THEN [k |-> "err", e |-> "PushOnly"]
       ELSE LET st2 == Append(st, IF i.k = "push" THEN i.d ELSE BuildInt(Int2(PushNum(i.c)))) IN
            IF Len(st2) > c.st THEN [k |-> "err", e |-> "StackSize"] ELSE PushesFrom(st2, s, i.n, c)
Pushes(s, c) == IF TooLong(s, c) THEN [k |-> "err", e |-> "ScriptSize"] ELSE PushesFrom(<<>>, s, 1, c)
Clean(r) == IF r.k # "stack" THEN r ELSE IF Len(r.v) # 1 THEN [k |-> "err", e |-> "StackNotClean"]
            ELSE IF AsBool(r.v[1]) THEN [k |-> "ok"] ELSE [k |-> "err", e |-> "VerifyFail"]
Witness(w, s, c, h) == LET r == Pushes(w, c) IN IF r.k # "stack" THEN r ELSE Clean(Run(r.v, s, c, h))

(* ---------------------------------------------------------------- answers *)
Res(r) == IF IsErr(r) THEN [k |-> "err", e |-> r.e] ELSE [k |-> "val", v |-> r.v]
Eval(a) ==
  CASE a.op = "run" -> Run(a.st, a.s, a.c, a.h)
    [] a.op = "pushes" -> Pushes(a.s, a.c)
    [] a.op = "witness" -> Witness(a.w, a.s, a.c, a.h)
    [] a.op = "clean" -> Clean([k |-> "stack", v |-> a.st])
    [] a.op = "parse" -> [k |-> "list", v |-> Parse(a.s, a.min)]
    [] a.op = "asm" -> [k |-> "words", v |-> AsmFrom(a.s, 1)]
    [] a.op = "build" -> [k |-> "bytes", v |-> Build(a.from, a.x)]
    [] a.op = "scriptint" -> [k |-> "bytes", v |-> BuildInt(a.v)]
    [] a.op = "readint" -> Res(ReadInt(a.s, a.n))
    [] a.op = "readbool" -> [k |-> "bool", v |-> AsBool(a.s)]
    [] a.op = "readuint" -> Res(ReadUint(a.s, a.n))
    [] a.op = "forms" -> [k |-> "forms", v |-> Forms(a.s)]
    [] a.op = "p2pk" -> [k |-> "bytes", v |-> P2pk(a.s)]
    [] a.op = "p2pkh" -> [k |-> "bytes", v |-> P2pkh(a.s)]
    [] a.op = "p2sh" -> [k |-> "bytes", v |-> P2sh(a.s)]
    [] a.op = "new_op_return" -> [k |-> "bytes", v |-> <<106>> \o Slice(a.s)]
    [] a.op = "opname" -> [k |-> "text", v |-> IF a.c = 0 THEN "OP_PUSHBYTES_0" ELSE AsmName(a.c)]
Agrees(a, o) ==
  LET r == Eval(a) IN
  \/ r = o \/ (r.k = "any" /\ o.k \in {"stack", "err"})
  \/ /\ r.k = "words" /\ o.k = "words" /\ r.v[Len(r.v)] = "truncated" /\ o.v # <<>> /\ o.v[Len(o.v)] = "truncated"
     /\ Len(o.v) >= Len(r.v) /\ SubSeq(o.v, 1, Len(r.v) - 1) = SubSeq(r.v, 1, Len(r.v) - 1)
============================================================================
