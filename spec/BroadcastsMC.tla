---------------------------- MODULE BroadcastsMC ----------------------------
(* U01: all histories with up to SUBS subscribers and CASTS broadcasts. *)
EXTENDS Broadcasts, Json
CONSTANTS SUBS, CASTS
VARIABLES s, n, got, log
Acts == {[op |-> o] : o \in {"sub", "purge", "end"}} \cup {[op |-> "cast", v |-> n]} \cup {[op |-> o, i |-> i] : o \in {"drop", "recv"}, i \in 0..(SUBS - 1)}
Init == s = B0 /\ n = 1 /\ got = <<>> /\ log = <<>>
Ok(a) == BAllowed(s, a) /\ (a.op = "sub" => Len(s.q) < SUBS) /\ (a.op = "cast" => n <= CASTS)
View(t, m) == [q |-> t.q, alive |-> t.alive, up |-> t.up, exact |-> t.exact, n |-> m]
Next == \E a \in Acts : Ok(a) /\ \E r \in BRes(s, a) :
  /\ s' = r[1] /\ n' = IF a.op = "cast" THEN n + 1 ELSE n
  /\ log' = IF a.op = "cast" THEN Append(log, a.v) ELSE log
  /\ got' = CASE a.op = "sub" -> Append(got, [from |-> Len(log), v |-> <<>>])
              [] a.op = "recv" /\ r[2].k = "val" -> [got EXCEPT ![a.i + 1].v = Append(@, r[2].v)]
              [] OTHER -> got
  /\ PrintT(ToJson([s |-> View(s, n), a |-> a, o |-> r[2], t |-> View(r[1], n')]))
Spec == Init /\ [][Next]_<<s, n, got, log>>
(* what a living subscriber has received and still has to receive is what was broadcast since it subscribed *)
Faithful == \A i \in s.alive : got[i].v \o s.q[i] = SubSeq(log, got[i].from + 1, Len(log))
StateView == View(s, n)
=============================================================================
