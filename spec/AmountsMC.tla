----------------------------- MODULE AmountsMC -----------------------------
(* All operations on all pairs of boundary values, printed for replay, with the laws that tie them together.            *)
EXTENDS Amounts, Json
CONSTANT RICH
VARIABLE act
T(k) == Pos(NPow2(k))
One == Int2(1)
UV == {I0, One, Int2(2), T(64), ISub(T(64), One), T(127), ISub(T(127), One), Pos(NMaxOf(128))}
      \cup (IF RICH THEN {Int2(3), Int2(1000), IAdd(T(64), One), T(63), IAdd(T(127), One), Pos(NSub(NMaxOf(128), <<1>>)), T(126), Pos(Ten(11)), Pos(Ten(38))} ELSE {})
SV == LET P == {x \in UV : IFitsS(x, W)} IN P \cup {INeg(x) : x \in P} \cup {IMinS(W), IAdd(IMinS(W), One)}
SH == {0, 1, 63, 64, 127, 128, 129, 200}
Acts == {[t |-> "u", op |-> o, a |-> x, b |-> y] : o \in {"add", "sub", "mul", "div", "rem", "and", "or", "xor", "abs_diff", "cmp"}, x \in UV, y \in UV}
  \cup {[t |-> "u", op |-> o, a |-> x] : o \in {"not", "to_signed", "signed_from_unsigned", "non_zero"}, x \in UV}
  \cup {[t |-> "u", op |-> o, a |-> x, n |-> n] : o \in {"shl", "shr"}, x \in UV, n \in SH}
  \cup {[t |-> "s", op |-> o, a |-> x, b |-> y] : o \in {"add", "sub", "mul", "div", "cmp"}, x \in SV, y \in SV}
  \cup {[t |-> "s", op |-> "rem", a |-> x, b |-> y] : x \in SV \ {IMinS(W)}, y \in SV}
  \cup {[t |-> "s", op |-> o, a |-> x] : o \in {"neg", "to_unsigned", "unsigned_from_signed"}, x \in SV}
Init == act \in Acts /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> Eval(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act
(* N01: every defined result is in range and is the exact result. *)
E(op, x, y) == Eval([t |-> act.t, op |-> op, a |-> x, b |-> y])
InRange == Eval(act).k = "val" =>
           IF (act.t = "u") # (act.op \in {"to_signed", "signed_from_unsigned", "to_unsigned", "unsigned_from_signed"})
           THEN IFitsU(Eval(act).v, W) \/ act.op = "to_signed" ELSE IFitsS(Eval(act).v, W) \/ IFitsU(Eval(act).v, W)
Laws ==
  LET r == Eval(act) IN
  /\ act.op = "add" /\ r.k = "val" => E("sub", r.v, act.b) = Val(act.a) /\ r = E("add", act.b, act.a)
  /\ act.op = "sub" /\ r.k = "val" => E("add", r.v, act.b) = Val(act.a)
  /\ act.op = "div" /\ r.k = "val" /\ act.b.mag # <<>> =>
        IAdd(IMul(r.v, act.b), IRemT(act.a, act.b)) = act.a /\ NLt(IRemT(act.a, act.b).mag, act.b.mag)
  /\ act.op = "neg" /\ r.k = "val" => IAdd(r.v, act.a) = I0
  /\ act.op = "add" /\ r.k = "none" => IF act.t = "u" THEN ~NFits(IAdd(act.a, act.b).mag, W) ELSE ~IFitsS(IAdd(act.a, act.b), W)
=============================================================================
