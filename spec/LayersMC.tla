------------------------------ MODULE LayersMC ------------------------------
(* Exploration of a stack of views: at most LAYERS views, at most LOG operations in force, at most DEPTH operations.     *)
EXTENDS Layers, Json, TLC
CONSTANTS Acts, LAYERS, LOG, DEPTH, UNMERGE      \* LAYERS = 0: one view, nothing but operations and undo; DEPTH = 0: not counted
VARIABLES s, n
LActs == {[op |-> "do", act |-> x] : x \in Acts} \cup {[op |-> o] : o \in IF LAYERS = 0 THEN {"undo"} ELSE {"undo", "push", "flush", "drop"}} \cup (IF UNMERGE THEN {[op |-> "unmerge"]} ELSE {})
Within(a) == /\ (a.op = "push" => Len(s.ls) <= LAYERS) /\ (a.op = "do" => Len(Top(s).log) < LOG /\ (DEPTH > 0 => n < DEPTH))
             /\ (a.op = "drop" => Len(s.ls) = LAYERS + 1)
Init == s = L0 /\ n = 0
Next == \E a \in LActs : LAllowed(s, a) /\ Within(a) /\
  LET r == LRes(s, a)
      m == IF DEPTH > 0 /\ a.op = "do" /\ r[2].k = "ok" THEN n + 1 ELSE n
  IN s' = r[1] /\ n' = m /\ PrintT(ToJson([s |-> <<s, n>>, a |-> a, o |-> r[2], t |-> <<r[1], m>>]))
Spec == Init /\ [][Next]_<<s, n>>
StateView == <<s, n>>
AllViews == {s.ls[i].v : i \in 1..Len(s.ls)}
=============================================================================
