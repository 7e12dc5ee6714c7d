--------------------------- MODULE SubscriptionsMC ---------------------------
(* R04: all histories of up to SUBS subscriptions on up to CONNS connections and CASTS broadcasts. *)
EXTENDS Subscriptions, Json
CONSTANTS CONNS, SUBS, CASTS, KINDS
VARIABLES s, n, log, got
Cs == 0..(CONNS - 1)
Is == 0..(SUBS - 1)
Acts == {[op |-> "connect"], [op |-> "end"]} \cup {[op |-> "sub", c |-> c, kind |-> k] : c \in Cs, k \in KINDS}
  \cup {[op |-> "close", c |-> c, abrupt |-> b] : c \in Cs, b \in BOOLEAN} \cup {[op |-> "unsub", i |-> i] : i \in Is}
  \cup {[op |-> "cast", v |-> n, n |-> k] : k \in {1, 2}}
  \cup {[op |-> "drain", i |-> i, n |-> Left(s, i), wait |-> 15] : i \in {i \in Is : Listening(s, i)}}
Init == s = S0 /\ n = 0 /\ log = <<>> /\ got = <<>>
Ok(a) == SAllowed(s, a) /\ (a.op = "connect" => Len(s.conns) < CONNS) /\ (a.op = "sub" => Len(s.subs) < SUBS) /\ (a.op = "cast" => n + a.n <= CASTS)
View(t, m) == <<t, m>>
Next == \E a \in Acts : Ok(a) /\ LET r == SRes(s, a) IN
  /\ s' = r[1] /\ n' = IF a.op = "cast" THEN n + a.n ELSE n
  /\ log' = IF a.op = "cast" THEN log \o [i \in 1..a.n |-> a.v + i - 1] ELSE log
  /\ got' = CASE a.op = "sub" /\ s.up -> Append(got, [from |-> n, v |-> <<>>])
              [] a.op = "drain" -> [got EXCEPT ![a.i + 1].v = @ \o r[2].v]
              [] OTHER -> got
  /\ PrintT(ToJson([s |-> View(s, n), a |-> a, o |-> r[2], t |-> View(r[1], n')]))
Spec == Init /\ [][Next]_<<s, n, log, got>>
RECURSIVE All(_, _)
All(kind, x) == IF x = <<>> THEN <<>> ELSE Seen(kind, x[1]) \o All(kind, Tail(x))
(* received and yet to be received together are the events since the subscription, as its kind shows them *)
Faithful == \A i \in On(s) : got[i].v \o s.subs[i].q = All(s.subs[i].kind, SubSeq(log, got[i].from + 1, Len(log)))
StateView == View(s, n)
=============================================================================
