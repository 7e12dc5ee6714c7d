--------------------------- MODULE StorageConcMC ---------------------------
(* S03: all schedules of a few threads at the granularity of calls, with the prediction which calls must wait. A shared  *)
(* lock: readers together, a writer alone. Not specified: which of several waiting threads goes first, and whether a      *)
(* reader overtakes a waiting writer; so at most one thread waits at a time and nobody starts while one does.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, V
VARIABLES s
T == 0..(N - 1)
Init == s = [th |-> [t \in 1..N |-> "idle"], db |-> 0, w |-> 0]
Th(t) == s.th[t + 1]
Writers == {t \in T : Th(t) = "rw"}
Readers == {t \in T : Th(t) = "ro"}
Waiting == {t \in T : Th(t) \in {"wait_ro", "wait_rw"}}
Free(k) == Writers = {} /\ (k = "ro" \/ Readers = {})
Ready == \E t \in Waiting : Free(IF Th(t) = "wait_ro" THEN "ro" ELSE "rw")
Become(t, x) == [s EXCEPT !.th[t + 1] = x]
Ok == [k |-> "ok"]
Begin(t, k) == IF Free(k) THEN <<IF k = "rw" THEN [Become(t, k) EXCEPT !.w = s.db] ELSE Become(t, k), Ok>> ELSE <<Become(t, "wait_" \o k), [k |-> "blocked"]>>
Do(t, w) == [op |-> "do", t |-> t, what |-> w]
Moves ==
  IF Ready THEN {<<[op |-> "wait", t |-> t, block |-> FALSE], <<IF Th(t) = "wait_ro" THEN Become(t, "ro") ELSE [Become(t, "rw") EXCEPT !.w = s.db], Ok>>>> : t \in Waiting}
  ELSE
    {<<Do(t, k) @@ [block |-> ~Free(k)], Begin(t, k)>> : t \in {t \in T : Th(t) = "idle" /\ Waiting = {}}, k \in {"ro", "rw"}}
    \cup {<<Do(t, "get") @@ [m |-> 0, key |-> 1], <<s, [k |-> "val", v |-> IF Th(t) = "rw" THEN s.w ELSE s.db]>>>> : t \in Readers \cup Writers}
    \cup {<<Do(t, "put") @@ [m |-> 0, key |-> 1, v |-> v], <<[s EXCEPT !.w = v], Ok>>>> : t \in Writers, v \in 1..V}
    \cup {<<Do(t, "commit"), <<[Become(t, "idle") EXCEPT !.db = s.w, !.w = 0], Ok>>>> : t \in Writers}
    \cup {<<Do(t, "abort"), <<[Become(t, "idle") EXCEPT !.w = 0], Ok>>>> : t \in Writers}
    \cup {<<Do(t, "end"), <<Become(t, "idle"), Ok>>>> : t \in Readers}
Next == \E mv \in Moves : s' = mv[2][1] /\ PrintT(ToJson([s |-> s, a |-> mv[1], o |-> mv[2][2], t |-> mv[2][1]]))
Spec == Init /\ [][Next]_s
Exclusive == Cardinality(Writers) <= 1 /\ (Writers # {} => Readers = {})
NoWaitForNothing == Waiting # {} /\ ~Ready => Writers # {} \/ Readers # {}
OnlyCommit == [][s'.db # s.db => \E t \in T : s.th[t + 1] = "rw" /\ s'.th[t + 1] = "idle" /\ s'.db = s.w]_s
============================================================================
