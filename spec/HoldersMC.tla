----------------------------- MODULE HoldersMC -----------------------------
(* U05: flag, destructors and array in all orders; every operation of the 8-bit and boolean atomics on boundary values.  *)
EXTENDS Holders, Json
CONSTANTS FAM, ALL
VARIABLES s, last
Bytes1 == IF ALL THEN 0..255 ELSE {0, 1, 2, 3, 85, 126, 127, 128, 129, 170, 254, 255}
Acts ==
  CASE FAM = 1 -> {[op |-> o] : o \in {"flag_new", "flag_test", "flag_set", "flag_tas"}} \cup {[op |-> o, i |-> i] : o \in {"once_new", "once_drop", "once_unwind"}, i \in 0..1}
    [] FAM = 2 -> {[op |-> "arr_new", r |-> r, c |-> c, v |-> 1] : r, c \in 1..2} \cup {[op |-> o, r |-> r, c |-> c, v |-> 2] : o \in {"arr_get", "arr_set"}, r, c \in 0..2}
                  \cup {[op |-> "arr_rows"], [op |-> "arr_clone"]} \cup {[op |-> "arr_fill", r |-> r, v |-> 3] : r \in 0..2}
    [] OTHER -> {}
Fs(ty) == {"load", "store", "swap", "cas", "update", "and", "nand", "or", "xor", "inner"} \cup (IF ty = "bool" THEN {} ELSE {"add", "sub", "max", "min"})
Values(ty) == IF ty = "bool" THEN 0..1 ELSE Bytes1
Ys(ty, f) == IF f \notin {"cas", "update"} THEN {0} ELSE IF ty = "bool" THEN 0..1 ELSE {0, 128, 200}
FY(ty) == UNION {{<<f, y>> : y \in Ys(ty, f)} : f \in Fs(ty)}
At(ty, ord) == {<<[op |-> "at_new", ty |-> ty, ord |-> ord, how |-> "new", v |-> <<v>>], [op |-> "at", f |-> p[1], x |-> <<x>>, y |-> <<p[2]>>], [op |-> "at", f |-> "load", x |-> <<0>>, y |-> <<0>>]>> :
  v, x \in Values(ty), p \in FY(ty)}
AtRuns == UNION {At(ty, ord) : ty \in {"u8", "i8", "bool"}, ord \in IF ALL THEN {"seqcst"} ELSE {"relaxed", "acqrel", "seqcst"}}
Out1(r) == CHOOSE x \in r : TRUE
Show(run) == LET a == HRes(H0, run[1])  b == HRes(Out1(a)[1], run[2])  c == HRes(Out1(b)[1], run[3]) IN
  [s |-> 0, a |-> run, o |-> <<Out1(a)[2], Out1(b)[2], Out1(c)[2]>>, t |-> 0]
Init == s = H0 /\ last = <<>> /\ (FAM = 3 => \A r \in AtRuns : PrintT(ToJson(Show(r))))
Next == \E a \in Acts : HAllowed(s, a) /\ \E r \in HRes(s, a) :
  /\ r[1].runs <= 3
  /\ s' = r[1] /\ last' = <<a, r[2]>>
  /\ PrintT(ToJson([s |-> s, a |-> a, o |-> r[2], t |-> r[1]]))
Spec == Init /\ [][Next]_<<s, last>>
Rectangular == \A i \in 1..Len(s.arr) : Len(s.arr[i]) = s.cols
StaysSet == [][s.flag /\ ~s'.flag => last'[1].op = "flag_new"]_<<s, last>>
EachOnce == [][s'.runs - s.runs = Cardinality(s.held \ s'.held)]_s
=============================================================================
