------------------------------ MODULE UtxosMC ------------------------------
EXTENDS Utxos, LayersMC
CONSTANTS TXS, REWARDS, RAW
(* t2 and t3 spend the same output; t3 also names an account; the reward spends an output of t2 *)
T1 == [op |-> "tx", t |-> 1, ins |-> <<<<0>>>>, outs |-> <<12, 2, 10>>, h |-> 1]
T2 == [op |-> "tx", t |-> 2, ins |-> <<<<1, 0>>>>, outs |-> <<3>>, h |-> 2]
T3 == [op |-> "tx", t |-> 3, ins |-> <<<<1, 0>>, <<2>>, <<1, 2>>>>, outs |-> <<0, 13>>, h |-> 0]
(* refused after it has spent one of its inputs *)
T4 == [op |-> "tx", t |-> 4, ins |-> <<<<1, 2>>, <<1, 1>>>>, outs |-> <<0>>, h |-> 3]
X1 == {T1, T2, T3, T4}
X2 == {T1, T2}
R0 == {}
R1 == {[op |-> "reward", b |-> 5, ins |-> <<<<2, 0>>>>, none |-> FALSE, outs |-> <<4>>, h |-> 4]}
R2 == R1 \cup {[op |-> "reward", b |-> 6, ins |-> <<>>, none |-> TRUE, outs |-> <<24, 1>>, h |-> 5], [op |-> "reward", b |-> 6, ins |-> <<<<1, 0>>>>, none |-> FALSE, outs |-> <<12, 5>>, h |-> 5]}
W0 == {}
(* single additions and removals of one output, and of one never added by anything else *)
Raw(o) == {[op |-> "add", o |-> o, c |-> c, h |-> 7, ow |-> w] : c \in {0, 12}, w \in BOOLEAN} \cup {[op |-> "spend", o |-> o], [op |-> "uncache", o |-> o]}
W1 == Raw(<<1, 0>>)
W2 == {x \in Raw(<<1, 0>>) : x.op # "add" \/ x.c = 0}
         \cup {[op |-> "best", b |-> b] : b \in 1..2}
W3 == {[op |-> "spend", o |-> <<1, 2>>], [op |-> "outs", t |-> 1, ins |-> T1.ins, outs |-> T1.outs, h |-> 6, check |-> TRUE], [op |-> "pay", b |-> 5, outs |-> <<4>>, h |-> 6, check |-> TRUE],
       [op |-> "pay", b |-> 5, outs |-> <<14, 4>>, h |-> 6, check |-> FALSE]}
W4 == {[op |-> "spend", o |-> <<1, 2>>]}
UActs == TXS \cup REWARDS \cup RAW
(* what a transaction or a reward makes available and spends is exactly what it names *)
Exact == \A a \in UActs : LET r == UEval(Top(s).v, a) IN r[1] = "ok" /\ a.op = "tx" =>
   \A i \in 1..SOURCES, j \in 1..M : LET o == <<i, j - 1>> IN
     IF i = a.t /\ j <= Len(a.outs) THEN (a.outs[j] % 12 \in Kept) = (r[2].u[i][j] = <<<<a.outs[j], a.h>>>>)
     ELSE r[2].u[i][j] = IF \E k \in 1..Len(a.ins) : a.ins[k] = o THEN <<>> ELSE Top(s).v.u[i][j]
=============================================================================
