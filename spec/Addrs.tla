-------------------------------- MODULE Addrs --------------------------------
(* Network addresses and their texts: IPv4 and IPv6 addresses (RFC 4291 text forms), domain names, with and without port. *)
(* A host is [w |-> words] (4 of IPv4, 8 of IPv6) or [d |-> text of a domain name]; a port is <<>> or <<p>>.               *)
(* "any" stands for what is not specified: ports written with a sign or leading zeros, scopes, an IPv6 address without     *)
(* brackets followed by a port, non-ASCII names, names whose last label could be read as a floating-point number.          *)
EXTENDS Naturals, Sequences, TLC
IsDigit(c) == c \in 48..57
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> 99
IsAl(c) == c \in 97..122 \/ c \in 65..90
IsAlnum(c) == IsDigit(c) \/ IsAl(c)
No == [k |-> "bad"]
Unsaid == [k |-> "any"]
RECURSIVE SplitFrom(_, _, _)
SplitFrom(t, c, i) == IF i > Len(t) THEN <<t>> ELSE IF t[i] = c THEN <<SubSeq(t, 1, i - 1)>> \o SplitFrom(SubSeq(t, i + 1, Len(t)), c, 1) ELSE SplitFrom(t, c, i + 1)
Split(t, c) == SplitFrom(t, c, 1)
RECURSIVE Val(_, _)
Val(t, b) == IF t = <<>> THEN 0 ELSE b * Val(SubSeq(t, 1, Len(t) - 1), b) + HexVal(t[Len(t)])
Digits(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])

Octet(t) == Digits(t) /\ Len(t) <= 3 /\ (Len(t) > 1 => t[1] # 48) /\ Val(t, 10) <= 255
V4(t) == LET p == Split(t, 46) IN IF Len(p) = 4 /\ \A i \in 1..4 : Octet(p[i]) THEN <<Val(p[1], 10), Val(p[2], 10), Val(p[3], 10), Val(p[4], 10)>> ELSE <<>>
Hextet(t) == Len(t) \in 1..4 /\ \A i \in 1..Len(t) : HexVal(t[i]) < 16
(* words of a list of pieces, <<-1>>-like failure given by ok = FALSE *)
RECURSIVE Groups(_)
Groups(p) ==
  IF p = <<>> THEN [ok |-> TRUE, w |-> <<>>, v4 |-> FALSE]
  ELSE IF Hextet(p[1]) THEN LET r == Groups(Tail(p)) IN [r EXCEPT !.w = <<Val(p[1], 16)>> \o @]
  ELSE IF Len(p) = 1 /\ V4(p[1]) # <<>> THEN LET q == V4(p[1]) IN [ok |-> TRUE, w |-> <<256 * q[1] + q[2], 256 * q[3] + q[4]>>, v4 |-> TRUE]
  ELSE [ok |-> FALSE, w |-> <<>>, v4 |-> FALSE]
Part(t) == IF t = <<>> THEN Groups(<<>>) ELSE Groups(Split(t, 58))
V6(t) ==
  LET gap == {i \in 1..(Len(t) - 1) : t[i] = 58 /\ t[i + 1] = 58} IN
  IF gap = {} THEN LET g == Groups(Split(t, 58)) IN IF g.ok /\ Len(g.w) = 8 THEN g.w ELSE <<>>
  ELSE LET i == CHOOSE i \in gap : \A j \in gap : i <= j
           h == Part(SubSeq(t, 1, i - 1))
           g == Part(SubSeq(t, i + 2, Len(t)))
       IN IF h.ok /\ g.ok /\ ~h.v4 /\ Len(h.w) + Len(g.w) <= 7 THEN h.w \o [j \in 1..(8 - Len(h.w) - Len(g.w)) |-> 0] \o g.w ELSE <<>>
Ip(t) == LET a == V4(t) IN IF a # <<>> THEN a ELSE V6(t)

Label(t, last) ==
  IF t = <<>> \/ Len(t) > 63 THEN "bad"
  ELSE IF \E i \in 1..Len(t) : t[i] > 127 THEN "any"
  ELSE IF ~IsAlnum(t[1]) \/ ~IsAlnum(t[Len(t)]) \/ \E i \in 1..Len(t) : ~IsAlnum(t[i]) /\ t[i] # 45 THEN "bad"
  ELSE IF last /\ Digits(t) THEN "bad"
  ELSE IF last /\ (IsDigit(t[1]) \/ t[1] \in {105, 73, 110, 78}) THEN "any"
  ELSE "ok"
Domain(t) ==
  LET u == IF t # <<>> /\ t[Len(t)] = 46 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
      p == Split(u, 46)
      ls == {Label(p[i], i = Len(p)) : i \in 1..Len(p)}
  IN IF Len(u) > 253 /\ (\A i \in 1..Len(u) : u[i] < 128) THEN "bad" ELSE IF Len(p) > 127 \/ "bad" \in ls THEN "bad" ELSE IF "any" \in ls THEN "any" ELSE "ok"
Port(t) == IF t = <<>> THEN "bad"
  ELSE IF (t[1] = 43 /\ Digits(Tail(t))) \/ (Digits(t) /\ t[1] = 48 /\ Len(t) > 1) THEN "any"
  ELSE IF Digits(t) /\ Len(t) <= 5 /\ Val(t, 10) <= 65535 THEN "ok" ELSE "bad"

IpAddr(t, p) == [k |-> "addr", host |-> [w |-> t], port |-> p]
Name(t, p) == [k |-> "addr", host |-> [d |-> t], port |-> p]
Last(t, c) == {i \in 1..Len(t) : t[i] = c /\ \A j \in (i + 1)..Len(t) : t[j] # c}
(* [v6]:port and v4:port *)
Sock(t) ==
  IF Last(t, 58) = {} THEN No
  ELSE LET i == CHOOSE i \in Last(t, 58) : TRUE
           h == SubSeq(t, 1, i - 1)
           p == SubSeq(t, i + 1, Len(t))
           inner == SubSeq(h, 2, Len(h) - 1)
           w == IF V4(h) # <<>> THEN V4(h) ELSE IF Len(h) > 1 /\ h[1] = 91 /\ h[Len(h)] = 93 THEN V6(inner) ELSE <<>>
       IN IF Len(h) > 1 /\ h[1] = 91 /\ \E j \in 1..Len(h) : h[j] = 37 THEN Unsaid
          ELSE IF w = <<>> \/ Port(p) = "bad" THEN No ELSE IF Port(p) = "any" THEN Unsaid ELSE IpAddr(w, <<Val(p, 10)>>)
Host(t) == IF Ip(t) # <<>> THEN IpAddr(Ip(t), <<>>) ELSE CASE Domain(t) = "bad" -> No [] Domain(t) = "any" -> Unsaid [] OTHER -> Name(t, <<>>)
Optional(t) ==
  IF Ip(t) # <<>> THEN IpAddr(Ip(t), <<>>)
  ELSE IF Sock(t).k # "bad" THEN Sock(t)
  ELSE IF Last(t, 58) = {} THEN Host(t)
  ELSE LET i == CHOOSE i \in Last(t, 58) : TRUE
           h == SubSeq(t, 1, i - 1)
           p == SubSeq(t, i + 1, Len(t))
       IN IF Port(p) = "bad" THEN No ELSE IF V6(h) # <<>> \/ Host(h).k = "any" THEN Unsaid ELSE IF Host(h).k = "bad" THEN No
          ELSE IF Port(p) = "any" THEN Unsaid ELSE [Host(h) EXCEPT !.port = <<Val(p, 10)>>]
Parse(ty, t) ==
  CASE ty = "ip_or_sock" -> IF Ip(t) # <<>> THEN IpAddr(Ip(t), <<>>) ELSE Sock(t)
    [] ty = "addr" -> Host(t)
    [] ty = "opt" -> Optional(t)
    [] ty = "port" -> LET r == Optional(t) IN IF r.k = "addr" /\ r.port = <<>> THEN No ELSE r
    [] ty = "domain" -> CASE Domain(t) = "bad" -> No [] Domain(t) = "any" -> Unsaid [] OTHER -> Name(t, <<>>)
Resolved(xs) == [i \in 1..Len(xs) |-> [k |-> "addr", host |-> xs[i].host, port |-> xs[i].port]]
Eval(a) ==
  CASE a.op = "parse" -> Parse(a.ty, a.t)
    [] a.op = "show" -> [k |-> "back", same |-> TRUE]
    [] a.op = "scope" -> [k |-> "back", same |-> TRUE]
    [] a.op = "default" -> [k |-> "sock", host |-> a.host, port |-> IF a.port = <<>> THEN a.p ELSE a.port[1]]
    [] a.op = "conv" -> [k |-> "conv", v |-> <<IpAddr(a.host.w, <<a.p>>), IpAddr(a.host.w, <<a.p>>), IpAddr(a.host.w, <<>>)>>]
    [] a.op = "resolve" -> [k |-> "list", v |-> Resolved(a.xs)]
=============================================================================
