------------------------------ MODULE AccessMC ------------------------------
(* R01. FAM 1: all settings, with and without a busy address, and what then is served; FAM 2: histories of cookie         *)
(* starts, stops, crashes and files left by others, with current and former secrets and a client that lives through them.  *)
EXTENDS Access, Json
CONSTANTS FAM, STARTS, DEPTH
VARIABLES s, n
None == [none |-> TRUE]
Users == {None, [some |-> <<117>>], [some |-> <<>>], [some |-> <<117, 58>>]}
Passes == {None, [some |-> <<112, 58, 113>>], [some |-> <<>>]}
Settings == [op : {"start"}, auth : {TRUE}, user : Users, pass : Passes, cookie : {"none", "given", "nodir"}, busy : {FALSE}]
  \cup {[op |-> "start", auth |-> au, user |-> None, pass |-> None, cookie |-> c, busy |-> b] : au, b \in BOOLEAN, c \in {"none", "given"}}
Texts == {<<>>, <<58>>, <<117, 58, 112, 58, 113>>, <<117, 58, 112>>, <<117, 58>>, <<58, 112, 58, 113>>, <<117, 112, 113>>, <<117, 58, 112, 58, 113, 113>>, <<117, 58, 112, 58, 81>>,
          <<85, 58, 112, 58, 113>>, <<117, 58, 112, 58, 113, 255>>, <<117, 58, 58, 112, 58, 113>>, <<117>>, <<117, 0, 58, 112, 58, 113>>, <<95, 95, 99, 111, 111, 107, 105, 101, 95, 95, 58>>}
Raws == {<<>>, <<66, 97, 115, 105, 99>>, <<66, 101, 97, 114, 101, 114, 32, 100, 84, 112, 119, 79, 110, 69, 61>> (* Bearer dTpwOnE= *),
         <<100, 84, 112, 119, 79, 110, 69, 61>> (* dTpwOnE= *), <<66, 97, 115, 105, 99, 32, 33>>, <<117, 58, 112, 58, 113>>}
Headers == {[k |-> "none"]} \cup {[k |-> "basic", d |-> d] : d \in Texts} \cup {[k |-> "raw", d |-> d] : d \in Raws}
Clients == {[k |-> "none"], [k |-> "cookie", at |-> "data"], [k |-> "cookie", at |-> "given"], [k |-> "basic", user |-> <<117>>, pass |-> <<112, 58, 113>>], [k |-> "basic", user |-> <<>>, pass |-> <<>>]}
Fam1 == Settings \cup {[op |-> "request", via |-> v, h |-> h] : v \in {"post", "ws"}, h \in Headers}
  \cup {[op |-> "request", via |-> "list", h |-> h] : h \in {[k |-> "none"], [k |-> "basic", d |-> <<117, 58, 112, 58, 113>>]}}
  \cup {[op |-> "request", via |-> v, h |-> [k |-> "cookie", n |-> 1]] : v \in {"post", "ws", "list"}}
  \cup {[op |-> "request", via |-> "post", h |-> [k |-> "near", n |-> 1, how |-> w]] : w \in {"cut", "add", "empty", "case", "last", "first"}}
  \cup {[op |-> "client", via |-> v, auth |-> c] : v \in {"http", "ws"}, c \in Clients} \cup {[op |-> "stop", sub |-> b] : b \in BOOLEAN}
Fam2 == {[op |-> "start", auth |-> TRUE, user |-> None, pass |-> None, cookie |-> c, busy |-> b] : b \in BOOLEAN, c \in {"none", "given"}}
  \cup {[op |-> "start", auth |-> TRUE, user |-> [some |-> <<117>>], pass |-> [some |-> <<112>>], cookie |-> "none", busy |-> FALSE]}
  \cup {[op |-> "stop", sub |-> TRUE], [op |-> "crash"], [op |-> "hold", auth |-> [k |-> "cookie", at |-> "data"]], [op |-> "held"]}
  \cup {[op |-> "litter", at |-> p] : p \in {"data", "datatmp", "giventmp", "given"}} \cup {[op |-> "rm", at |-> "data"]}
  \cup {[op |-> "request", via |-> "post", h |-> [k |-> "cookie", n |-> i]] : i \in 1..STARTS}
  \cup {[op |-> "client", via |-> "ws", auth |-> [k |-> "cookie", at |-> "data"]]}
Init == s = A0 /\ n = 0
Small(a) == (FAM = 1 => (a.op = "start" => n = 0)) /\ (a.op = "start" => s.n < STARTS)
View(t, m) == IF FAM = 1 THEN <<t, m>> ELSE <<t, m>>
Counted(a) == a.op \in {"start", "stop", "crash", "litter", "rm", "hold"}
Next == \E a \in IF FAM = 1 THEN Fam1 ELSE Fam2 : Allowed(s, a) /\ Small(a) /\ (Counted(a) => n < DEPTH) /\
  LET r == Res(s, a) IN
  /\ s' = r[1] /\ n' = IF Counted(a) THEN n + 1 ELSE n
  /\ PrintT(ToJson([s |-> View(s, n), a |-> a, o |-> r[2], t |-> View(r[1], n')]))
Spec == Init /\ [][Next]_<<s, n>>
(* while the server runs with authentication, at most one offer is served, and former secrets never are *)
OneKey == s.mode \in {"basic", "cookie"} => \A h1, h2 \in Headers \cup {[k |-> "cookie", n |-> i] : i \in 1..s.n} :
            Serves(s, OfHeader(h1)) /\ Serves(s, OfHeader(h2)) => h1 = h2
OldSecrets == s.mode = "cookie" => \A i \in 1..(s.n - 1) : ~Serves(s, [k |-> "secret", n |-> i])
StateView == View(s, n)
=============================================================================
