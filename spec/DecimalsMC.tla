----------------------------- MODULE DecimalsMC -----------------------------
(* All texts up to LEN over a small alphabet, all small and boundary decimal amounts, with the round-trip laws of N02.   *)
EXTENDS Decimals, Json
CONSTANTS LEN, MANT, RICH
VARIABLE act
Alphabet == {48, 49, 57, 46, 95, 32, 45}       \* 0 1 9 . _ space -
Texts == UNION {[1..n -> Alphabet] : n \in 0..LEN}
Ms == {NFromInt(i) : i \in 0..MANT} \cup {NMaxOf(128), NSub(NMaxOf(128), <<1>>), Ten(38), Ten(37), NMul(Ten(37), <<34>>), NPow2(127), NSub(NPow2(127), <<1>>)}
Ds == {0, 1, 2, 3} \cup (IF RICH THEN {11, 37, 38, 39, 40, 76, 254, 255} ELSE {38, 39, 255})
Acts == {[op |-> "parse", s |-> s] : s \in Texts}
  \cup {[op |-> o, m |-> Pos(m), d |-> d] : o \in {"show", "without_padding"}, m \in Ms, d \in Ds}
  \cup {[op |-> o, m |-> Pos(m), d |-> d, n |-> n] : o \in {"with_decimals", "to_amount"}, m \in Ms, d \in Ds, n \in Ds}
  \cup {[op |-> "into_fixed", m |-> Pos(m), n |-> n] : m \in Ms, n \in Ds}
  \cup {[op |-> "from_fixed", s |-> IntoFixed(m, n), n |-> n] : m \in Ms, n \in Ds}
  \cup {[op |-> "sinto_fixed", v |-> MkI(g, m), n |-> n] : g \in {x \in BOOLEAN : TRUE}, m \in {x \in Ms : NFits(x, 127)} , n \in Ds}
  \cup {[op |-> "sfrom_fixed", s |-> SIntoFixed(MkI(g, m), n), n |-> n] : g \in BOOLEAN, m \in Ms, n \in Ds}
  \cup {[op |-> "sub", m |-> Pos(m), d |-> d, m2 |-> Pos(m2), d2 |-> d2] : m \in Ms, d \in {0, 1, 3, 38}, m2 \in Ms, d2 \in {0, 2, 39}}
(* every combination of lengths of the integral and the fractional part, with extreme digits *)
Rep(c, n) == [i \in 1..n |-> c]
Lens == 0..40
Shapes(pat, i, f) ==
  LET d(n) == IF n = 0 THEN <<>> ELSE IF pat = 1 THEN Rep(57, n) ELSE IF pat = 2 THEN <<49>> \o Rep(48, n - 1) ELSE Rep(48, n - 1) \o <<49>> IN
  d(i) \o <<46>> \o d(f)
LongTexts == {Shapes(p, i, f) : p \in IF RICH THEN 1..3 ELSE {1}, i \in Lens, f \in Lens}
        \cup {Shapes(p, i, f) : p \in 1..3, i \in {0, 1, 2, 20}, f \in 0..45 \cup 250..258}
EdgeMs == UNION {{Ten(k), NSub(Ten(k), <<1>>)} : k \in 0..38} \cup {NPow2(k) : k \in {32, 63, 64, 127}} \cup {NSub(NPow2(k), <<1>>) : k \in {32, 63, 64, 128}}
EdgeActs == {[op |-> "parse", s |-> s] : s \in LongTexts}
  \cup {[op |-> o, m |-> Pos(m), d |-> d] : o \in {"show", "without_padding"}, m \in EdgeMs, d \in Lens}
  \cup {[op |-> "from_fixed", s |-> IntoFixed(m, n), n |-> n] : m \in EdgeMs, n \in Lens}
  \cup {[op |-> "to_amount", m |-> Pos(m), d |-> d, n |-> n] : m \in {<<1>>, Ten(1), Ten(19), Ten(20), Ten(37)}, d \in Lens, n \in Lens}
Init == act \in Acts \cup EdgeActs /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> Eval(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act
(* N02 *)
RoundTrip == act.op = "into_fixed" => FromFixed(IntoFixed(act.m.mag, act.n), act.n) = Val(act.m)
SRoundTrip == act.op = "sinto_fixed" => SFromFixed(SIntoFixed(act.v, act.n), act.n) = Val(act.v)
ShowParses == act.op = "show" => Parse(Show(act.m.mag, act.d)) = Dec(act.m.mag, act.d) \/ Len(Show(act.m.mag, act.d)) > MAXDEC + 2
ExactValue ==   \* the value m / 10^d is kept
  LET r == Eval(act) IN
  /\ act.op = "with_decimals" /\ r.k = "dec" => NMul(r.m.mag, Ten(act.d)) = NMul(act.m.mag, Ten(r.d))
  /\ act.op = "without_padding" => NMul(r.m.mag, Ten(act.d)) = NMul(act.m.mag, Ten(r.d))
  /\ act.op = "sub" /\ r.k = "dec" =>
       NAdd(NMul(r.m.mag, Ten(act.d + act.d2)), NMul(act.m2.mag, Ten(r.d + act.d))) = NMul(act.m.mag, Ten(r.d + act.d2))
=============================================================================
