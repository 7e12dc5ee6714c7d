----------------------------- MODULE ChainsTrace -----------------------------
EXTENDS Chains, TraceBase
(* prints: <<best block, number of the fingerprint of everything stored about the ledger>>: one chain, one ledger *)
ZSt0 == [w |-> 0, s |-> 0, prints |-> {}]
Rev(q) == <<>> \o [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
SetOf(q) == {q[i] : i \in 1..Len(q)}
ZPrint(z, b, fp) == \A p \in z.prints : p[1] = b => p[2] = fp
ZShow(w, s, t) == [best |-> t.best, main |-> Rev(Up(w, t.best)), st |-> t.st, minh |-> t.minh, ev |-> Events(w, s, t), orph |-> t.orph, facts |-> Show(Ledger(w, t.best)[2])]
ZFits(x, o) == /\ o.best = x.best /\ o.main = x.main /\ o.st = x.st /\ o.minh = x.minh /\ o.ev = x.ev
               /\ SetOf(o.orph) = x.orph /\ SetOf(o.facts) = x.facts
ZWorld(a) == Full(a)
ZSteps(z, a, o) ==
  IF o.k = "panic" THEN {}
  ELSE IF a.op = "world" THEN LET w == ZWorld(a) IN {[w |-> w, s |-> CS0(w), prints |-> {<<0, o.s.fp>>}]}
  ELSE IF a.op = "fresh" THEN IF ZPrint(z, z.s.best, o.fp) THEN {z} ELSE {}
  ELSE {[z EXCEPT !.s = r[1], !.prints = @ \cup {<<r[1].best, o.s.fp>>}] :
        r \in {x \in CRes(z.w, z.s, a) : x[2] = o.r /\ ZFits(ZShow(z.w, z.s, x[1]), o.s) /\ ZPrint(z, x[1].best, o.s.fp)}}
ZExpected(z, a) ==
  IF a.op = "world" THEN "any" ELSE IF a.op = "fresh" THEN [print |-> {p \in z.prints : p[1] = z.s.best}]
  ELSE [prints |-> z.prints, any |-> {[r |-> x[2], s |-> ZShow(z.w, z.s, x[1])] : x \in CRes(z.w, z.s, a)}]
=============================================================================
