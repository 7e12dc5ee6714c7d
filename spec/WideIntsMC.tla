----------------------------- MODULE WideIntsMC -----------------------------
(* All operations on all pairs of boundary values of each width, printed for replay, with the laws that tie them.        *)
EXTENDS WideInts, Json
CONSTANT RICH
VARIABLE act
One == <<1>>
P(k) == NPow2(k)
Vals(w) == {<<>>, One, <<2>>, NMaxOf(w), NSub(NMaxOf(w), One), P(w - 1), NMaxOf(64), P(64), NMaxOf(w \div 2), P(w \div 2)}
  \cup (IF RICH THEN {<<10>>, <<255>>, NMaxOf(32), P(32), NAdd(P(64), One), P(63), P(w - 64), NSub(P(w - 64), One), NMaxOf(w - 1), NSub(NMaxOf(w), P(64)),
                      NXor(NMaxOf(w), NShl(NMaxOf(64), w - 128)), NAdd(P(w \div 2), P(32)), Ten(30)} ELSE {})
SH(w) == {0, 1, 32, 63, 64, 65, w - 65, w - 64, w - 1, w, w + 1, 2 * w}
Bin(w) == {"add", "sub", "mul", "div", "rem", "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "widening_mul", "and", "or", "xor", "cmp"}
Un(w) == {"not", "bits", "trailing_zeros", "to_le", "to_be", "low_u64", "low_u32", "hex", "words", "consts"}
ActsW(w) ==
  {[w |-> w, op |-> o, a |-> Pos(x), b |-> Pos(y)] : o \in Bin(w), x \in Vals(w), y \in Vals(w)}
  \cup {[w |-> w, op |-> "mul_u32", a |-> Pos(x), b |-> Pos(y)] : x \in Vals(w), y \in {<<>>, One, <<3>>, NMaxOf(32), P(31)}}
  \cup {[w |-> w, op |-> o, a |-> Pos(x), b |-> I0] : o \in Un(w), x \in Vals(w)}
  \cup {[w |-> w, op |-> o, a |-> Pos(x), b |-> I0, n |-> n] : o \in {"shl", "shr", "mask"}, x \in Vals(w), n \in SH(w)}
  \cup {[w |-> w, op |-> "bit", a |-> Pos(x), b |-> I0, n |-> n] : x \in Vals(w), n \in {k \in SH(w) : k < w}}
  \cup {[w |-> w, op |-> "bit_slice", a |-> Pos(x), b |-> I0, n |-> n, n2 |-> m] : x \in Vals(w), n \in {0, 1, 63, 64, 65, w - 1}, m \in {w - 1, w}}
  \cup {[w |-> w, op |-> o, a |-> I0, b |-> I0, s |-> NToLE(x, w \div 8 + d)] : o \in {"from_le", "from_be"}, x \in {y \in Vals(w) : NFits(y, w - 8)}, d \in {-1, 0, 1}}
  \cup {[w |-> w, op |-> "from_u64", a |-> Pos(x), b |-> I0] : x \in {y \in Vals(w) : NFits(y, 64)}}
  \cup {[w |-> w, op |-> "from_u128", a |-> Pos(x), b |-> I0] : x \in {y \in Vals(w) : NFits(y, 128)}}
Acts == UNION {ActsW(w) : w \in {128, 256, 512}}
  \cup {[op |-> o, a |-> Pos(x)] : o \in {"128to256", "128tou128"}, x \in Vals(128)}
  \cup {[op |-> o, a |-> Pos(x)] : o \in {"256to512", "256tou128", "low128"}, x \in Vals(256) \cup Vals(128)}
  \cup {[op |-> "512to256", a |-> Pos(x)] : x \in Vals(512) \cup Vals(256)}
Init == act \in Acts /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> Eval(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act
(* N03 *)
InWidth == LET r == Eval(act) IN r.k = "val" /\ "w" \in DOMAIN act => NFits(r.v.mag, act.w)
Laws ==
  LET r == Eval(act)
      x == act.a.mag
      y == act.b.mag
  IN "w" \in DOMAIN act =>
  /\ act.op = "widening_mul" => NAdd(r.lo.mag, NShl(r.hi.mag, act.w)) = NMul(x, y)
  /\ act.op = "div" /\ y # <<>> => NAdd(NMul(r.v.mag, y), EvalW([act EXCEPT !.op = "rem"], act.w).v.mag) = x
  /\ act.op = "add" => (r.k = "none") = (NBits(NAdd(x, y)) > act.w)
  /\ act.op = "to_be" => NFromBE(r.v) = x
  /\ act.op = "to_le" => NFromLE(r.v) = x /\ r.v = Reverse(NToBE(x, act.w \div 8))
  /\ act.op = "not" => NAdd(r.v.mag, x) = NMaxOf(act.w)
  /\ act.op = "xor" => NXor(r.v.mag, y) = x
=============================================================================
