------------------------------ MODULE ValuesMC ------------------------------
(* Boundary values of every operation, printed for replay, with the laws of N04.                                         *)
EXTENDS Values, Json
CONSTANT RICH
VARIABLE act
One == Int2(1)
C4(size, word, sign) == Pos(NAdd(NShl(NFromInt(size), 24), NAdd(NFromInt(word), IF sign THEN NPow2(23) ELSE <<>>)))
Sizes == (IF RICH THEN 0..40 ELSE 0..4 \cup 29..36) \cup {255}
WordsC == {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8323072} \cup (IF RICH THEN {2, 254, 257, 65534, 65537, 4194304, 8388606, 1234567} ELSE {})
T256 == {NShl(NFromInt(w), k) : w \in WordsC, k \in {0, 8, 12, 100, 216, 225, 232}} \cup {NMaxOf(256), NMaxOf(255), NMaxOf(24), NMaxOf(23), NPow2(23), NPow2(255)}
R == {I0, One, Int2(2), Int2(3), Pos(NMaxOf(64)), Pos(NPow2(63))}
RW(w) == R \cup (IF w > 64 THEN {Pos(NMaxOf(128)), Pos(NPow2(127)), Pos(NAdd(NPow2(64), <<1>>))} ELSE {}) \cup (IF w > 128 THEN {Pos(NMaxOf(256))} ELSE {})
H == {I0, One, Int2(5), IMaxS(64), IAdd(IMaxS(64), One), Pos(NMaxOf(64)), ISub(Pos(NMaxOf(64)), One)}
DS == {I0, One, Int2(-1), Int2(5), Int2(-5), IMaxS(64), IMinS(64)}
TM == {I0, One, Pos(Giga), Pos(NSub(Giga, <<1>>)), Pos(MaxTime), Pos(NSub(MaxTime, Giga)), IMul(Int2(1700000000), Pos(Giga)), Int2(1000000), Int2(1500000)}
PtTexts == {<<48>>, <<49>>, <<48, 46, 51>>, <<48, 46, 48, 48, 49>>, <<48, 46, 48, 48, 48, 49>>, <<49, 46, 48, 48, 49>>, <<49, 48, 48, 37>>, <<49, 48, 48, 46, 49, 37>>,
            <<53, 37>>, <<53, 46, 53, 37>>, <<53, 46, 53, 53, 37>>, <<37>>, <<>>, <<53, 32, 37>>, <<32, 53, 37>>, <<45, 49, 37>>, <<49, 37, 53>>}
SvTexts == {<<49, 46, 50, 46, 51>>, <<50, 53, 53, 46, 50, 53, 53, 46, 54, 53, 53, 51, 53>>, <<50, 53, 54, 46, 48, 46, 48>>, <<48, 46, 48, 46, 54, 53, 53, 51, 54>>,
            <<49, 46, 50>>, <<49, 46, 50, 46, 51, 46, 52>>, <<49, 46, 46, 51>>, <<>>, <<46, 46>>, <<43, 49, 46, 50, 46, 51>>, <<45, 49, 46, 50, 46, 51>>, <<48, 48, 49, 46, 50, 46, 51>>}
Sv == {<<x, y, z>> : x \in {0, 1, 255}, y \in {0, 2}, z \in {0, 1, 65535}}
Acts ==
  {[op |-> "expand", a |-> C4(s, w, g)] : s \in Sizes, w \in WordsC, g \in BOOLEAN}
  \cup {[op |-> "compact", a |-> Pos(t)] : t \in T256}
  \cup UNION {{[op |-> "rat", w |-> w, a |-> a, b |-> b, c |-> c, d |-> d] : a \in RW(w), b \in RW(w) \ {I0}, c \in RW(w), d \in RW(w) \ {I0}} : w \in IF RICH THEN {64, 128, 256} ELSE {64, 256}}
  \cup {[op |-> "rat_parts", a |-> a, b |-> b] : a \in RW(128), b \in RW(128)}
  \cup {[op |-> o, a |-> a, b |-> b] : o \in {"h_add_d", "h_sub_d"}, a \in H, b \in DS}
  \cup {[op |-> o, a |-> a, b |-> b] : o \in {"h_sub_h", "c_add", "c_sub", "h_checked_add", "h_cmp"}, a \in H, b \in H}
  \cup {[op |-> o, a |-> a, b |-> b] : o \in {"d_add_d", "d_sub_d"}, a \in DS, b \in DS}
  \cup {[op |-> o, a |-> a] : o \in {"h_next", "h_prev", "h_text"}, a \in H}
  \cup {[op |-> "h_iter", a |-> Int2(i), b |-> Int2(j)] : i \in 0..4, j \in 0..4}
  \cup {[op |-> "h_parse", s |-> Chr(x.mag)] : x \in H \cup {Pos(NPow2(64))}}
  \cup {[op |-> o, n |-> n] : o \in {"pt_new", "pt_json_int"}, n \in {0, 1, 5, 10, 99, 100, 999, 1000, 1001, 65535}}
  \cup {[op |-> "pt_json_int", n |-> n] : n \in {65536, 66000}}
  \cup {[op |-> "pt_text", n |-> n] : n \in 0..1000}
  \cup {[op |-> "pt_parse", s |-> t] : t \in PtTexts} \cup {[op |-> "pt_parse", s |-> PtText(n).p] : n \in 0..1000} \cup {[op |-> "pt_parse", s |-> PtText(n).d] : n \in 0..1000}
  \cup {[op |-> "pt_cmp", n |-> m, n2 |-> n] : m \in {0, 1, 999, 1000}, n \in {0, 1, 999, 1000}}
  \cup {[op |-> "sv_parse", s |-> t] : t \in SvTexts}
  \cup {[op |-> "sv_text", a |-> v[1], b |-> v[2], c |-> v[3]] : v \in Sv}
  \cup {[op |-> "sv_cmp", x |-> x, y |-> y] : x \in Sv, y \in Sv}
  \cup {[op |-> o, a |-> x, b |-> y] : o \in {"t_add", "t_sub", "t_sub_t", "t_sat_add", "t_sat_sub", "t_sat_sub_t", "t_cmp"}, x \in TM, y \in TM}
  \cup {[op |-> o, a |-> x] : o \in {"t_secs", "t_to_int"}, x \in TM}
  \cup {[op |-> o, a |-> x] : o \in {"t_abs", "t_text"}, x \in {y \in TM : CivilOK(y.mag)} \cup {IMul(Int2(s), Pos(Ten(12))) : s \in {68169, 951782, 951868, 1709164, 1709251, 4107542, 253402300}}}
  \cup {[op |-> o, a |-> x] : o \in {"t_from_secs", "t_from_int"}, x \in {y \in H : TRUE}}
Agree2(a) == a.op = "h_add_d" /\ ISgn64(a.a) /\ ~ISgn64(IAdd(a.a, a.b))   \* left to the trace check, which knows MayAlso
Init == act \in {a \in Acts : ~Agree2(a)} /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> EvalV(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act
(* N04 *)
CompactCanonical ==   \* never larger than the original, and a fixpoint
  act.op = "compact" =>
    LET c == CompactOf(act.a.mag)
        e == Expand(c)
    IN /\ e.k = "val" /\ NLe(e.v.mag, act.a.mag) /\ CompactOf(e.v.mag) = c
       /\ NLt(NSub(act.a.mag, e.v.mag), NPow2(MaxI(0, NBits(act.a.mag) - 15)))
ExpandFits == act.op = "expand" => LET r == Expand(act.a.mag) IN r.k = "val" => NFits(r.v.mag, 256)
PtRound == act.op = "pt_text" => PtParse(PtText(act.n).p) = PtNew(act.n) /\ PtParse(PtText(act.n).d) = PtNew(act.n)
HRound == act.op = "h_parse" => LET r == ParseUInt(act.s, 64) IN r.k = "val" => Chr(r.v.mag) = act.s
HeightSub == act.op = "h_sub_h" => LET r == HSubH(act.a, act.b) IN r.k = "val" => HAddD(act.b, r.v) = ValI(act.a)
RatOrder == act.op = "rat" => EvalV(act).v = -RatCmp(act.c.mag, act.d.mag, act.a.mag, act.b.mag)
=============================================================================
