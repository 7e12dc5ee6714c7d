------------------------------- MODULE Utxos -------------------------------
(* Unspent outputs. v.u[src][idx]: nothing or <<output, height>>; an output is a number, its kind the number mod 12;     *)
(* height 0 stands for the mempool. Sources are the transactions 1..T and then blocks. v.own: which of the outputs were  *)
(* put there in this very view (an addition that does not allow overwriting is refused for those; for others the caller  *)
(* has to know, and the specification says nothing). An input is <<src, idx>> or <<k>> for an account.                   *)
EXTENDS Integers, Sequences
CONSTANTS SOURCES, M
Kept == {0, 1, 3, 4, 8, 10}          \* kinds of outputs that can be spent
Grid(x) == <<>> \o [i \in 1..SOURCES |-> <<>> \o [j \in 1..M |-> x]]
UV0 == [u |-> Grid(<<>>), own |-> Grid(FALSE), best |-> 0]
At(v, o) == v.u[o[1]][o[2] + 1]
Own(v, o) == v.own[o[1]][o[2] + 1]
Set2(g, o, x) == <<>> \o [g EXCEPT ![o[1]] = <<>> \o [@ EXCEPT ![o[2] + 1] = x]]
Put(v, o, x) == [v EXCEPT !.u = Set2(@, o, <<x>>), !.own = Set2(@, o, TRUE)]
Take(v, o) == [v EXCEPT !.u = Set2(@, o, <<>>), !.own = Set2(@, o, FALSE)]
Ok(v) == <<"ok", v>>
Refuse(v) == <<"refused", v>>
Silent(v) == <<"silent", v>>         \* nothing is promised
AddOne(v, o, x, ow) == IF At(v, o) = <<>> \/ ow THEN Ok(Put(v, o, x)) ELSE IF Own(v, o) THEN Refuse(v) ELSE Silent(v)
SpendOne(v, o) == IF At(v, o) = <<>> THEN Refuse(v) ELSE Ok(Take(v, o))
RECURSIVE SpendAll(_, _, _)
SpendAll(v, ins, i) ==
  IF i > Len(ins) THEN Ok(v) ELSE IF Len(ins[i]) = 1 THEN SpendAll(v, ins, i + 1)
  ELSE LET r == SpendOne(v, ins[i]) IN IF r[1] # "ok" THEN r ELSE SpendAll(r[2], ins, i + 1)
RECURSIVE AddAll(_, _, _, _, _, _, _)
(* only: whether outputs of kinds that cannot be spent are left out *)
AddAll(v, src, outs, h, ow, only, i) ==
  IF i > Len(outs) THEN Ok(v)
  ELSE IF only /\ outs[i] % 12 \notin Kept THEN AddAll(v, src, outs, h, ow, only, i + 1)
  ELSE LET r == AddOne(v, <<src, i - 1>>, <<outs[i], h>>, ow) IN IF r[1] # "ok" THEN r ELSE AddAll(r[2], src, outs, h, ow, only, i + 1)
UEval(v, a) ==
  CASE a.op = "add" -> AddOne(v, a.o, <<a.c, a.h>>, a.ow)
    [] a.op = "spend" -> SpendOne(v, a.o)
    [] a.op = "uncache" -> Ok(v)
    [] a.op = "best" -> Ok([v EXCEPT !.best = a.b])
    [] a.op = "tx" -> LET r == SpendAll(v, a.ins, 1) IN IF r[1] # "ok" THEN r ELSE AddAll(r[2], a.t, a.outs, a.h, FALSE, TRUE, 1)
    [] a.op = "outs" -> AddAll(v, a.t, a.outs, a.h, a.check, TRUE, 1)
    [] a.op = "pay" -> AddAll(v, a.b, a.outs, a.h, TRUE, FALSE, 1)
    [] a.op = "reward" -> LET r == SpendAll(v, IF a.none THEN <<>> ELSE a.ins, 1) IN
         IF r[1] # "ok" THEN r
         ELSE IF \E i \in 1..Len(a.outs) : a.outs[i] % 12 \notin Kept THEN Refuse(v) ELSE AddAll(r[2], a.b, a.outs, a.h, FALSE, FALSE, 1)
UDo(v, a) == LET r == UEval(v, a) IN IF r[1] = "ok" THEN <<TRUE, r[2]>> ELSE <<FALSE, v>>
UCan(v, a) == UEval(v, a)[1] # "silent"
UShow(v) == [u |-> v.u, best |-> v.best]
UChild(v) == [v EXCEPT !.own = Grid(FALSE)]
UMerged(v, w) == [w EXCEPT !.own = <<>> \o [i \in 1..SOURCES |-> <<>> \o [j \in 1..M |-> w.u[i][j] # <<>> /\ (w.own[i][j] \/ v.own[i][j])]]]
=============================================================================
