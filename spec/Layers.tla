------------------------------- MODULE Layers -------------------------------
(* A stack of views of a ledger over a database. Every view answers like the list of records it stands for; an accepted *)
(* operation changes the top view only; undoing the last operation that is still in force, made in this view or in one  *)
(* below before, brings back the records from before it; flushing a view makes the one below answer like it.            *)
(* State: ls, a sequence of [v, log] (database first); log the records before each operation in force; last: the view   *)
(* below as it was before the flush just made.                                                                           *)
EXTENDS Integers, Sequences
CONSTANTS Do(_, _), V0, Can(_, _), Show(_), Child(_), Merged(_, _)
(* Can: whether the specification says anything about the operation; Show: what a view answers; Child: a new view above; *)
(* Merged: a view after the one above was flushed into it                                                               *)
Any2(v, a) == TRUE
AsIs(v) == v
Upper(v, w) == w
L0 == [ls |-> <<[v |-> V0, log |-> <<>>], [v |-> Child(V0), log |-> <<>>]>>, last |-> <<>>]
Each(q) == [i \in 1..Len(q) |-> Child(q[i])]
Top(s) == s.ls[Len(s.ls)]
Cut(q) == SubSeq(q, 1, Len(q) - 1)
SetTop(s, x) == [ls |-> Append(Cut(s.ls), x), last |-> <<>>]
LAllowed(s, a) ==
  CASE a.op = "do" -> Len(s.ls) >= 2 /\ Can(Top(s).v, a.act)
    [] a.op = "undo" -> Len(s.ls) >= 2 /\ Top(s).log # <<>>
    [] a.op \in {"flush", "drop"} -> Len(s.ls) >= 2
    [] a.op = "unmerge" -> s.last # <<>>
    [] OTHER -> TRUE
LNext(s, a) ==        \* <<state, answer>>
  CASE a.op = "do" -> LET r == Do(Top(s).v, a.act) IN
         IF r[1] THEN <<SetTop(s, [v |-> r[2], log |-> Append(Top(s).log, Top(s).v)]), "ok">> ELSE <<[s EXCEPT !.last = <<>>], "refused">>
    [] a.op = "undo" -> <<SetTop(s, [v |-> Top(s).log[Len(Top(s).log)], log |-> Cut(Top(s).log)]), "ok">>
    [] a.op = "push" -> <<[ls |-> Append(s.ls, [v |-> Child(Top(s).v), log |-> Each(Top(s).log)]), last |-> <<>>], "ok">>
    [] a.op = "drop" -> <<[ls |-> Cut(s.ls), last |-> <<>>], "ok">>
    [] a.op = "flush" -> <<[ls |-> Append(Cut(Cut(s.ls)), [v |-> Merged(s.ls[Len(s.ls) - 1].v, Top(s).v), log |-> Top(s).log]), last |-> <<s.ls[Len(s.ls) - 1]>>], "ok">>
    [] a.op = "unmerge" -> <<SetTop(s, s.last[1]), "ok">>
LRes(s, a) == LET r == LNext(s, a) IN <<r[1], [k |-> r[2], top |-> Show(Top(r[1]).v), base |-> Show(r[1].ls[1].v)]>>
Fits(e, o) == \A f \in DOMAIN e : f \in DOMAIN o /\ o[f] = e[f]
LSteps(s, a, o) ==
  IF ~LAllowed(s, a) THEN (IF a.op = "do" /\ o.k = "refused" /\ Fits([top |-> Show(Top(s).v), base |-> Show(s.ls[1].v)], o) THEN {[s EXCEPT !.last = <<>>]} ELSE {})
  ELSE LET r == LRes(s, a) IN IF Fits(r[2], o) THEN {r[1]} ELSE {}
LExpected(s, a) == IF ~LAllowed(s, a) THEN "not allowed" ELSE LRes(s, a)[2]
=============================================================================
