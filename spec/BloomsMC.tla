------------------------------ MODULE BloomsMC ------------------------------
(* U04: all histories of insertions and clearings; every answer for every element after each step. *)
EXTENDS Blooms, Json
CONSTANTS ROLLING, SIZE, VALS, DEPTH
VARIABLES s, n
New == [op |-> "new", rolling |-> ROLLING, size |-> SIZE, ppm |-> 1000, seed |-> 7]
Acts == {[op |-> "ins", v |-> v] : v \in 0..(VALS - 1)} \cup (IF ROLLING THEN {} ELSE {[op |-> "clear"]})
Init == s = F0 /\ n = <<>>
Do(a) == /\ FAllowed(s, a) /\ s' = FStep(s, a) /\ n' = Append(n, a)
         /\ PrintT(ToJson([s |-> n, a |-> a, o |-> Expect(s', [op |-> "hasall", v |-> VALS + 1]), t |-> n']))
Next == IF s = F0 THEN Do(New) ELSE Len(n) <= DEPTH /\ \E a \in Acts : Do(a)
Spec == Init /\ [][Next]_<<s, n>>
(* the last SIZE insertions are kept, nothing is kept before the first *)
Enough == s # F0 => LET k == Len(n) IN \A i \in 1..k : n[i].op = "ins" /\ (\A j \in i..k : n[j].op # "clear") /\ (~ROLLING \/ Cardinality({j \in (i + 1)..k : n[j].op = "ins"}) < SIZE)
            => Must(s, n[i].v) = "yes"
=============================================================================
