------------------------------- MODULE Access -------------------------------
(* Access control of the RPC server. The secret of the n-th start in cookie mode is the symbol n.                        *)
(* mode: "down", "open" (no authentication), "basic" (user and pass), "cookie" (secret cur, kept at place at).           *)
(* file[place]: 0 no file, n the n-th secret, -1 a file of somebody else.                                                 *)
EXTENDS Integers, Sequences, TLC
A0 == [mode |-> "down", user |-> <<>>, pass |-> <<>>, n |-> 0, cur |-> 0, at |-> "data", file |-> [data |-> 0, given |-> 0], held |-> [k |-> "nobody"]]
Colon == 58
Has(x) == "some" \in DOMAIN x
NoColon(t) == \A i \in 1..Len(t) : t[i] # Colon
(* what a setting asks for *)
Setting(a) ==
  IF ~a.auth THEN "open"
  ELSE IF Has(a.user) # Has(a.pass) THEN "bad"
  ELSE IF Has(a.user) THEN IF a.cookie # "none" \/ ~NoColon(a.user.some) THEN "bad" ELSE "basic"
  ELSE IF a.cookie = "nodir" THEN "bad" ELSE "cookie"
Place(a) == IF a.cookie = "given" THEN "given" ELSE "data"
Files(s) == [k |-> "files", data |-> s.file.data, given |-> s.file.given, leak |-> FALSE, open |-> FALSE]

(* credentials offered by a request: <<user, pass>> as texts, <<n>> the n-th secret, or nothing usable *)
Serves(s, c) ==
  CASE s.mode = "open" -> TRUE
    [] s.mode = "basic" -> c.k = "text" /\ c.d = s.user \o <<Colon>> \o s.pass
    [] OTHER -> c.k = "secret" /\ c.n = s.cur
Answer(s, c) == [k |-> IF s.mode = "down" THEN "down" ELSE IF Serves(s, c) THEN "served" ELSE "refused"]
Nothing == [k |-> "nothing"]
OfHeader(h) ==
  CASE h.k = "basic" -> [k |-> "text", d |-> h.d]
    [] h.k = "cookie" -> [k |-> "secret", n |-> h.n]
    [] OTHER -> Nothing      \* none; a header of another form; a secret with a change
OfClient(s, c) ==
  CASE c.k = "basic" -> [k |-> "text", d |-> c.user \o <<Colon>> \o c.pass]
    [] c.k = "cookie" -> IF s.file[c.at] > 0 THEN [k |-> "secret", n |-> s.file[c.at]] ELSE Nothing
    [] OTHER -> Nothing

Allowed(s, a) ==
  CASE a.op = "start" -> s.mode = "down"
    [] a.op \in {"stop", "crash"} -> s.mode # "down"
    [] a.op = "held" -> s.held.k # "nobody"
    [] a.op = "request" -> a.h.k \in {"cookie", "near"} => a.h.n \in 1..s.n
    [] OTHER -> TRUE
Res(s, a) ==
  CASE a.op = "start" ->
         LET m == Setting(a)
             t == IF m # "cookie" THEN s ELSE [s EXCEPT !.n = @ + 1, !.cur = s.n + 1, !.at = Place(a), !.file[Place(a)] = s.n + 1]
             up == CASE m = "open" -> [t EXCEPT !.mode = m]
                     [] m = "basic" -> [t EXCEPT !.mode = m, !.user = a.user.some, !.pass = a.pass.some]
                     [] OTHER -> [t EXCEPT !.mode = m]
             x == CASE m = "open" -> <<>> [] m = "basic" -> [same |-> TRUE] [] OTHER -> [fresh |-> TRUE, loads |-> TRUE]
             failed == IF m = "cookie" THEN [t EXCEPT !.file[Place(a)] = 0] ELSE s
         IN IF m = "bad" THEN <<s, [k |-> "badset", f |-> Files(s)]>>
            ELSE IF a.busy THEN <<failed, [k |-> "busy", f |-> Files(failed)]>>
            ELSE <<up, IF m = "open" THEN [k |-> "up", f |-> Files(up)] ELSE [k |-> "up", x |-> x, f |-> Files(up)]>>
    [] a.op = "stop" -> LET t == [s EXCEPT !.mode = "down", !.file[s.at] = IF s.mode = "cookie" THEN 0 ELSE @] IN <<t, [k |-> "stopped", f |-> Files(t)]>>
    [] a.op = "crash" -> LET t == [s EXCEPT !.mode = "down"] IN <<t, [k |-> "stopped", f |-> Files(t)]>>
    [] a.op = "litter" -> <<IF a.at \in {"data", "given"} THEN [s EXCEPT !.file[a.at] = -1] ELSE s, [k |-> "ok"]>>
    [] a.op = "rm" -> <<IF a.at \in {"data", "given"} THEN [s EXCEPT !.file[a.at] = 0] ELSE s, [k |-> "ok"]>>
    [] a.op = "request" -> <<s, Answer(s, OfHeader(a.h))>>
    [] a.op = "client" -> <<s, Answer(s, OfClient(s, a.auth))>>
    [] a.op = "hold" -> <<[s EXCEPT !.held = a.auth], [k |-> "ok"]>>
    [] a.op = "held" -> <<s, Answer(s, OfClient(s, s.held))>>
=============================================================================
