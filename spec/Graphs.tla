------------------------------- MODULE Graphs -------------------------------
(* Dependency traversal. A graph is a sequence: g[n] is the sequence of the nodes that node n depends on.                *)
(* The abstract traversal may emit, at any moment, any reachable node not yet emitted whose dependencies are out         *)
(* (dependencies that lie on a cycle do not count: the order is promised for acyclic graphs only); the depth-first       *)
(* machine is one way to do it, and is checked against that in GraphsMC.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets
Set(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Close(_, _)
Close(g, S) == LET T == S \cup UNION {Set(g[n]) : n \in S} IN IF T = S THEN S ELSE Close(g, T)
Reach(g, roots) == Close(g, Set(roots))
Below(g, n) == Close(g, Set(g[n]))                      \* what n depends on, directly or not
Acyclic(g, S) == \A n \in S : n \notin Below(g, n)
CanEmit(g, roots, out, n) ==
  /\ n \in Reach(g, roots) \ Set(out)
  /\ Acyclic(g, Reach(g, roots)) => Set(g[n]) \subseteq Set(out)
RECURSIVE Follows(_, _, _, _)
Follows(g, roots, seq, i) == IF i > Len(seq) THEN TRUE ELSE CanEmit(g, roots, SubSeq(seq, 1, i - 1), seq[i]) /\ Follows(g, roots, seq, i + 1)
Complete(g, roots, seq) == Follows(g, roots, seq, 1) /\ Set(seq) = Reach(g, roots)

(* The depth-first machine: a stack of nodes with the number of dependencies looked at. *)
DStart(roots) == [todo |-> roots, stack |-> <<>>, seen |-> {}, out |-> <<>>]
DDone(d) == d.todo = <<>> /\ d.stack = <<>>
DStep(g, d) ==
  IF d.stack = <<>>
  THEN LET r == Head(d.todo) IN
       IF r \in d.seen THEN [d EXCEPT !.todo = Tail(@)]
       ELSE [d EXCEPT !.todo = Tail(@), !.seen = @ \cup {r}, !.stack = << <<r, 0>> >>]
  ELSE LET k == Len(d.stack)  n == d.stack[k][1]  i == d.stack[k][2] + 1 IN
       IF i > Len(g[n]) THEN [d EXCEPT !.stack = SubSeq(@, 1, k - 1), !.out = Append(@, n)]
       ELSE LET c == g[n][i]  e == [d EXCEPT !.stack[k][2] = i] IN
            IF c \in d.seen THEN e ELSE [e EXCEPT !.seen = @ \cup {c}, !.stack = Append(@, <<c, 0>>)]
=============================================================================
