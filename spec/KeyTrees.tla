------------------------------ MODULE KeyTrees ------------------------------
(* Symbolic model of hierarchical keys. A key is known by what it was made from: kind, seed and absolute path, and       *)
(* whether the private half is held. Hardened steps need the private half; normal steps commute with taking the public   *)
(* half, which is why the path alone names the point and the chain code.                                                 *)
EXTENDS Paths
NoKey == [kind |-> "none", seed |-> <<>>, path |-> <<>>, pub |-> FALSE]
Name(c, k) == <<c, k.kind, k.seed, k.path>>
Seen(k) ==      \* what is seen of a key: the terms of its parts
  [k |-> "ok", path |-> k.path, works |-> TRUE, pt |-> Name("pt", k), cc |-> Name("cc", k), sk |-> IF ~k.pub /\ k.kind = "key" THEN Name("sk", k) ELSE <<>>]
Refused(k) == <<k, Err>>
Step(k, c) == [k EXCEPT !.path = Append(@, c)]
CanStep(k, c) == (k.pub => ~c.h) /\ Len(k.path) < 255
Go(k) == <<k, Seen(k)>>
KRes(k, a) ==
  CASE a.op = "master" -> Go([kind |-> a.kind, seed |-> a.seed, path |-> <<>>, pub |-> FALSE])
    [] a.op = "child" -> LET c == [i |-> a.i, h |-> a.h] IN IF CanStep(k, c) THEN Go(Step(k, c)) ELSE Refused(k)
    [] a.op = "derive" ->
         IF Len(a.path) <= 255 /\ Extends(a.path, k.path) /\ (k.pub => \A j \in (Len(k.path) + 1)..Len(a.path) : ~a.path[j].h)
         THEN Go([k EXCEPT !.path = a.path]) ELSE Refused(k)
    [] a.op = "neuter" -> Go([k EXCEPT !.pub = TRUE])
    [] a.op = "codec" -> Go(k)
KAllowed(k, a) == CASE a.op = "master" -> TRUE [] a.op = "neuter" -> k.kind # "none" /\ ~k.pub [] OTHER -> k.kind # "none"
=============================================================================
