------------------------------ MODULE Storage ------------------------------
(* A transactional store of several ordered maps from byte strings to byte strings, with readers, one writer at a time,  *)
(* closing and reopening, and crashes. A map is the sequence of its <<key, value>> pairs in ascending order of keys.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
Get(m, k) == IF Has(m, k) THEN [k |-> "some", v |-> m[CHOOSE i \in 1..Len(m) : m[i][1] = k][2]] ELSE [k |-> "none"]
Without(m, k) == SelectSeq(m, LAMBDA e : e[1] # k)
With(m, k, v) == SelectSeq(m, LAMBDA e : Before(e[1], k)) \o <<<<k, v>>>> \o SelectSeq(m, LAMBDA e : Before(k, e[1]))
Prefix(m, p) == SelectSeq(m, LAMBDA e : IsPrefix(p, e[1]))
From(m, k) == SelectSeq(m, LAMBDA e : ~Before(e[1], k))
Sorted(m) == \A i \in 1..(Len(m) - 1) : Before(m[i][1], m[i + 1][1])

(* db: what is committed; tx: <<>> or <<the content as the open writer sees it>>; ros: the slots of open readers; up: is the database open *)
Empty(n) == [db |-> [i \in 1..n |-> <<>>], tx |-> <<>>, ros |-> {}, up |-> TRUE]
Seen(s) == IF s.tx # <<>> THEN s.tx[1] ELSE s.db
Ok == [k |-> "ok"]
Query(s, op, m, key) ==
  LET c == Seen(s)[m + 1] IN
  CASE op = "get" -> Get(c, key) [] op = "prefix" -> [k |-> "list", v |-> Prefix(c, key)] [] op = "from" -> [k |-> "list", v |-> From(c, key)]
Allowed(s, a) ==
  CASE a.op = "open" -> ~s.up
    [] a.op = "close" -> s.up
    [] a.op = "begin" -> s.up /\ s.tx = <<>> /\ s.ros = {}
    [] a.op \in {"put", "del", "commit", "abort"} -> s.tx # <<>>
    [] a.op = "ro" -> s.up /\ s.tx = <<>> /\ a.i \notin s.ros
    [] a.op = "ro_end" -> a.i \in s.ros
    [] a.op \in {"get", "prefix", "from"} -> s.up /\ (a.i = 9 \/ a.i \in s.ros)
    [] a.op = "crash" -> TRUE
(* The possible successors: pairs of state and answer. Only a crash has several. *)
Res(s, a) ==
  CASE a.op = "open" -> {<<[s EXCEPT !.up = TRUE], Ok>>}
    [] a.op = "close" -> {<<[s EXCEPT !.up = FALSE, !.tx = <<>>, !.ros = {}], Ok>>}
    [] a.op = "begin" -> {<<[s EXCEPT !.tx = <<s.db>>], Ok>>}
    [] a.op = "put" -> {<<[s EXCEPT !.tx[1][a.m + 1] = With(@, a.key, a.val)], Ok>>}
    [] a.op = "del" -> {<<[s EXCEPT !.tx[1][a.m + 1] = Without(@, a.key)], Ok>>}
    [] a.op = "commit" -> {<<[s EXCEPT !.db = s.tx[1], !.tx = <<>>], Ok>>}
    [] a.op = "abort" -> {<<[s EXCEPT !.tx = <<>>], Ok>>}
    [] a.op = "ro" -> {<<[s EXCEPT !.ros = @ \cup {a.i}], Ok>>}
    [] a.op = "ro_end" -> {<<[s EXCEPT !.ros = @ \ {a.i}], Ok>>}
    [] a.op \in {"get", "prefix", "from"} -> {<<s, Query(s, a.op, a.m, a.key)>>}
    \* the process dies while the action a.during is in progress: only a commit in progress may or may not have happened
    [] a.op = "crash" -> {<<[s EXCEPT !.db = d, !.tx = <<>>, !.ros = {}, !.up = FALSE], Ok>> :
                            d \in {s.db} \cup (IF a.during = "commit" /\ s.tx # <<>> THEN {s.tx[1]} ELSE {})}
============================================================================
