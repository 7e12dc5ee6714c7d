------------------------------- MODULE Blooms -------------------------------
(* Probabilistic filters. A plain filter remembers everything since it was cleared, a rolling one at least the last      *)
(* `size` insertions; about anything else it may be wrong, but only about a few elements.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
F0 == [kind |-> "none"]
Last(q, n) == {q[i] : i \in {i \in 1..Len(q) : i > Len(q) - n}}
Kept(s) == IF s.rolling THEN Last(s.ins, s.size) ELSE {s.ins[i] : i \in 1..Len(s.ins)}
Must(s, v) == IF v \in Kept(s) THEN "yes" ELSE IF s.ins = <<>> THEN "no" ELSE "any"
Agrees(e, o) == e = "any" \/ e = o
FAllowed(s, a) == a.op = "new" \/ (s.kind = "filter" /\ (a.op = "clear" => ~s.rolling))
FStep(s, a) ==
  CASE a.op = "new" -> [kind |-> "filter", rolling |-> a.rolling, size |-> a.size, ppm |-> a.ppm, ins |-> <<>>, n |-> 0]
    [] a.op = "ins" -> [s EXCEPT !.ins = IF s.rolling /\ Len(@) >= s.size THEN Append(SubSeq(@, Len(@) - s.size + 2, Len(@)), a.v) ELSE Append(@, a.v), !.n = @ + 1]
    [] a.op = "clear" -> [s EXCEPT !.ins = <<>>, !.n = 0]
    [] OTHER -> s
(* "rate": the number of elements reported among hi - lo that are not among those that have to be remembered nor were    *)
(* inserted recently; with at most the configured number of elements inside, the share stays near the configured one.     *)
Expect(s, a) ==
  CASE a.op = "has" -> [k |-> "has", v |-> Must(s, a.v)]
    [] a.op = "hasall" -> [k |-> "hasall", v |-> [i \in 1..a.v |-> Must(s, i - 1)]]
    [] a.op = "rate" -> [k |-> "num", max |-> IF s.ins = <<>> THEN 0 ELSE ((a.hi - a.lo) * s.ppm * 3) \div 1000000 + 30]
    [] OTHER -> [k |-> "ok"]
FOk(s, a, o) ==
  LET e == Expect(s, a) IN
  /\ o.k = e.k
  /\ CASE a.op = "has" -> Agrees(e.v, o.v)
       [] a.op = "hasall" -> Len(o.v) = Len(e.v) /\ \A i \in 1..Len(o.v) : Agrees(e.v[i], o.v[i])
       [] a.op = "rate" -> o.v <= e.max
       [] OTHER -> TRUE
=============================================================================
