----------------------------- MODULE StorageMC -----------------------------
(* S01: all sequences of operations over a few keys; every answer carries the complete view of the content. *)
EXTENDS Storage, Json
CONSTANTS FAM, VALS, READERS
VARIABLES s, old
K == CASE FAM = 1 -> << <<>>, <<255>>, <<255, 255>> >>
       [] FAM = 2 -> << <<0>>, <<0, 0>>, <<1>> >>
       [] FAM = 3 -> << <<127>>, <<128>>, <<127, 255>> >>
View == CASE FAM = 1 -> << <<>>, <<254>>, <<255>>, <<255, 255>>, <<255, 255, 255>>, <<255, 254>> >>
          [] FAM = 2 -> << <<>>, <<0>>, <<0, 0>>, <<0, 1>>, <<1>>, <<2>> >>
          [] FAM = 3 -> << <<>>, <<127>>, <<127, 0>>, <<127, 255>>, <<128>>, <<129>> >>
All(st) == LET q(op) == [m \in 1..2 |-> [i \in 1..Len(View) |-> Query(st, op, m - 1, View[i])]] IN [get |-> q("get"), prefix |-> q("prefix"), from |-> q("from")]
Acts ==
  {[op |-> "put", m |-> 0, key |-> K[i], val |-> <<v>>] : i \in 1..3, v \in VALS} \cup {[op |-> "del", m |-> 0, key |-> K[i]] : i \in 1..3}
  \cup {[op |-> "put", m |-> 1, key |-> K[2], val |-> <<>>], [op |-> "del", m |-> 1, key |-> K[2]]}
  \cup {[op |-> o] : o \in {"begin", "commit", "abort", "close", "open"}}
  \cup {[op |-> o, i |-> i] : o \in {"ro", "ro_end"}, i \in READERS}
CONSTANT REOPEN
Proper(a) == REOPEN \/ a.op \notin {"close", "open"}
State(x) == [db |-> x.db, tx |-> x.tx, ros |-> x.ros, up |-> x.up]
Init == s = Empty(2) /\ old = s.db
Next == \E a \in Acts : Proper(a) /\ Allowed(s, a) /\ \E r \in Res(s, a) :
  /\ s' = r[1]
  /\ old' = s.db
  /\ PrintT(ToJson([s |-> State(s), a |-> a, o |-> IF r[1].up THEN r[2] @@ [view |-> All(r[1])] ELSE r[2], t |-> State(r[1])]))
Spec == Init /\ [][Next]_<<s, old>>
Ordered == \A i \in 1..2 : Sorted(s.db[i]) /\ Sorted(Seen(s)[i])
OnlyCommits == [][s.db' # s.db => s.tx # <<>> /\ s.tx[1] = s'.db /\ s'.tx = <<>>]_s
TailsAgree == \A i \in 1..Len(View), m \in 0..1 :   \* the three kinds of query are consistent with each other
  /\ Query(s, "prefix", m, View[i]).v = Prefix(Query(s, "from", m, View[i]).v, View[i])
  /\ (Query(s, "get", m, View[i]).k = "some") = Has(Query(s, "prefix", m, View[i]).v, View[i])
============================================================================
