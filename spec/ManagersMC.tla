----------------------------- MODULE ManagersMC -----------------------------
EXTENDS Managers, Json
CONSTANTS SIZES, N, HOWS, CALLS, TIMEOUTS
VARIABLES m, k, last
Acts ==
  {[op |-> "init", i |-> i, how |-> h] : i \in Subs(m), h \in HOWS} \cup {[op |-> "end", i |-> i, how |-> h] : i \in Subs(m), h \in HOWS \ {1}}
  \cup {[op |-> "trigger"]} \cup (IF m.timeout > 0 /\ m.ph = "down" THEN {[op |-> "pass", t |-> x] : x \in {6, 40}} ELSE {})
  \cup (IF CALLS THEN {[op |-> "call", i |-> i, c |-> k, kind |-> x] : i \in Subs(m), x \in {"mut", "ref"}} \cup {[op |-> "busy", i |-> i, c |-> k, kind |-> x] : i \in Subs(m), x \in {"mut", "ref"}}
                       \cup {[op |-> "free", c |-> m.sub[i].busy[1], how |-> h] : i \in {j \in Subs(m) : m.sub[j].busy # <<>>}, h \in HOWS \ {1}} ELSE {})
Starts == {[op |-> "start", n |-> x, timeout |-> t] : x \in SIZES, t \in TIMEOUTS}
Init == m = M0 /\ k = 0 /\ last = <<>>
Next == k < N /\ \E a \in (IF m.ph = "none" THEN Starts ELSE Acts) :
  /\ MAllowed(m, a)
  /\ LET r == MRes(m, a) IN
     /\ m' = r[1] /\ last' = <<a, r[2]>> /\ k' = k + 1
     /\ PrintT(ToJson([s |-> <<m, k>>, a |-> a, o |-> r[2], t |-> <<m', k'>>]))
Spec == Init /\ [][Next]_<<m, k, last>>
ViewOf == <<m, k>>
(* the manager is over only when all are gone, except those that overran their time *)
OverLast == m.ph = "over" /\ m.timeout = 0 => \A i \in Subs(m) : m.sub[i].st = "gone"
(* a subsystem is asked to stop only when all registered after it are gone or overdue, and only when shutdown has begun *)
Reverse == m.ph # "none" => \A i \in Subs(m) : m.sub[i].asked => m.flag /\ (m.timeout = 0 => \A j \in Subs(m) : j > i => m.sub[j].st = "gone")
(* the one that ends lets all others be asked: when the current one is gone another one is being stopped, or all is over *)
NoneForgotten == m.ph = "down" => m.sub[m.cur].st # "gone"
SelfEnd == m.ph = "up" => \A i \in Subs(m) : m.sub[i].st # "gone"
(* while it stops in time, those registered before it that have not ended by themselves can be used *)
Usable == last # <<>> /\ m.ph # "none" /\ m.timeout = 0 =>
  \A e \in {last[2].ev[x] : x \in 1..Len(last[2].ev)} : e[1] = "uses" => \A j \in 1..Len(e[3]) : e[3][j] = "err" => m.sub[j].st = "gone"
=============================================================================
