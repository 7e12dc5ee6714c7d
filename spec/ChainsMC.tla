------------------------------ MODULE ChainsMC ------------------------------
(* All trees of up to NB blocks (numbered so that parents come first and siblings in order), at most one flawed block, all *)
(* orders of handing in, checks, invalidations, revivals, and restarts, up to D steps.                                    *)
EXTENDS Chains, Json
CONSTANTS NB, D, DEPTHS, FLAWS, OPS
VARIABLES w, s, n
Txs(f) == IF f = "twice" THEN <<"split", "alt">> ELSE IF f = "over" THEN <<"over">> ELSE <<>>
Flawed(f) == IF f \in {"none", "reward", "merkle"} THEN f ELSE "none"
Stamp(f, b) == IF f = "future" THEN 100 + b ELSE IF f = "early" THEN 0 ELSE b
Parents == {q \in [1..NB -> 0..(NB - 1)] : q[1] = 0 /\ \A i \in 1..NB : q[i] < i /\ (i > 1 => q[i - 1] <= q[i])}
Worlds == {[depth |-> d, ck |-> IF x[2] = "check" THEN x[1] ELSE 0, now |-> 50,
            blocks |-> <<>> \o [b \in 1..NB |-> LET f == IF b = x[1] THEN x[2] ELSE "none" IN [p |-> q[b], txs |-> Txs(f), flaw |-> Flawed(f), ts |-> Stamp(f, b)]]] :
           q \in Parents, d \in DEPTHS, x \in {<<0, "none">>} \cup ((1..NB) \X FLAWS)}
Acts == {[op |-> "process", b |-> b, src |-> "local"] : b \in 1..NB} \cup {[op |-> o, b |-> b] : o \in {"invalidate", "revive", "check"}, b \in 1..NB}
  \cup {[op |-> "process", b |-> b, src |-> "peer"] : b \in 1..NB} \cup {[op |-> "tick", now |-> 100], [op |-> "reopen"], [op |-> "fresh"]}
Plain(x) == [depth |-> x.depth, ck |-> x.ck, now |-> x.now, blocks |-> x.blocks]
Init == w \in {Full(x) : x \in Worlds} /\ s = CS0(w) /\ n = 0 /\ PrintT(ToJson([s |-> [w |-> 0, s |-> 0, n |-> 0], a |-> [op |-> "world", w |-> Plain(w)], o |-> 0, t |-> [w |-> Plain(w), s |-> s, n |-> 0]]))
Useful(a) ==
  /\ (a.op = "process" /\ a.src = "peer") => ~Knows(s, Par(w, a.b)) /\ n < 2
  /\ a.op = "tick" => \E b \in 1..NB : w.blocks[b].ts > 80 /\ s.now < 80
  /\ a.op = "reopen" => s.orph # {} \/ \E b \in 1..NB : s.st[b] = 2
  /\ (a.op \in {"invalidate", "revive"} /\ s.st[a.b] = 0) => n = 0
  /\ (a.op = "revive") => \E c \in Sub(w, a.b) : s.st[c] # 1
Step(a) == LET R == IF a.op = "fresh" THEN {<<s, "fresh">>} ELSE CRes(w, s, a) IN \E r \in R :
  /\ s' = r[1] /\ w' = w /\ n' = n + 1
  /\ PrintT(ToJson([s |-> [w |-> Plain(w), s |-> s, n |-> n], a |-> a, o |-> r[2], t |-> [w |-> Plain(w), s |-> r[1], n |-> n + 1]]))
Next == n < D /\ \E a \in Acts : a.op \in OPS /\ Useful(a) /\ Step(a)
Spec == Init /\ [][Next]_<<w, s, n>>
TypeUpright == Upright(w, s)
TypeHeaviest == Heaviest(w, s)
ViewOf == <<Plain(w), s>>
=============================================================================
