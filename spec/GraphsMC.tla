------------------------------ MODULE GraphsMC ------------------------------
(* U03: all graphs of a family, all sequences of roots; the depth-first machine is checked to be a proper traversal.     *)
EXTENDS Graphs, TLC, Json
CONSTANTS FAM, ROOTS
VARIABLES g, roots, d
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE LET R == Seqs(S, n - 1) IN R \cup {Append(r, x) : r \in {r \in R : Len(r) = n - 1}, x \in S}
Inj(S, n) == {q \in Seqs(S, n) : Cardinality(Set(q)) = Len(q)}
N == IF FAM \in {1, 3} THEN 3 ELSE 4
Graphs0 ==
  CASE FAM = 1 -> [1..3 -> Inj(1..3, 3)]                                   \* every graph of three nodes, every order
    [] FAM = 2 -> {f \in [1..4 -> UNION {Inj({2, 3, 4}, 3), Inj({1}, 1)}] : \A n \in 1..4 : \A i \in 1..Len(f[n]) : f[n][i] > n}
    [] FAM = 3 -> [1..3 -> Seqs(1..3, 2)]                                  \* repeated dependencies
    [] FAM = 4 -> {f \in [1..4 -> {<<>>, <<1>>, <<2>>, <<3>>, <<4>>, <<1, 2>>, <<3, 4>>, <<4, 1>>, <<2, 3>>}] : TRUE}
Roots0 == Seqs(1..N, ROOTS) \ {<<>>}
Init == g \in Graphs0 /\ roots \in Roots0 /\ d = DStart(roots) /\ PrintT(ToJson([s |-> 0, a |-> [op |-> "multi", g |-> g, roots |-> roots], o |-> 0, t |-> 0]))
Next == ~DDone(d) /\ d' = DStep(g, d) /\ UNCHANGED <<g, roots>>
Spec == Init /\ [][Next]_<<g, roots, d>> /\ WF_d(Next)
Proper == LET k == Len(d.out) IN k > 0 => CanEmit(g, roots, SubSeq(d.out, 1, k - 1), d.out[k])
AllOut == DDone(d) => Complete(g, roots, d.out)
Ends == <>DDone(d)
=============================================================================
