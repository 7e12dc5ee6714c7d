------------------------------- MODULE AddrsMC -------------------------------
(* R03. FAM 1: texts put together from pieces of IPv4 addresses, ports and names; FAM 2: all arrangements of up to N       *)
(* pieces of IPv6 addresses, in brackets or not; FAM 3: values given by their parts.                                       *)
EXTENDS Addrs, Json
CONSTANTS FAM, N
VARIABLE act
RECURSIVE Join(_, _)
Join(p, c) == IF p = <<>> THEN <<>> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<c>> \o Join(Tail(p), c)
Lists(X, lo, hi) == UNION {[1..i -> X] : i \in lo..hi}
Num(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>> ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Octets == {Num(0), Num(9), Num(255), Num(256), <<48, 49>>, <<>>, <<97>>}
Quads == {Join(p, 46) : p \in Lists(Octets, 4, 4)} \cup {Join(p, 46) : p \in Lists({Num(1), <<>>}, 1, 5)}
P65535 == <<54, 53, 53, 51, 53>>
Ports == {<<48>>, <<56, 48>>, P65535, <<54, 53, 53, 51, 54>>, <<57, 57, 57, 57, 57, 57>>, <<>>, <<97>>, <<45, 49>>, <<32, 56>>, <<56, 32>>, <<48, 49>>, <<43, 49>>}
GoodV4 == {<<49, 46, 50, 46, 51, 46, 52>>, <<48, 46, 48, 46, 48, 46, 48>>, <<50, 53, 53, 46, 49, 46, 49, 46, 50, 53, 53>>}
V6Texts == {<<58, 58>>, <<58, 58, 49>>, <<49, 58, 58>>, <<58, 58, 102, 102, 102, 102, 58, 49, 46, 50, 46, 51, 46, 52>>, <<49, 58, 50, 58, 51, 58, 52, 58, 53, 58, 54, 58, 55, 58, 56>>}
NameChars == {97, 90, 49, 45, 46, 95}
Names == Lists(NameChars, 0, N) \cup {[i \in 1..m |-> 97] : m \in {62, 63, 64}}
  \cup {[i \in 1..m |-> IF i % 60 = 0 THEN 46 ELSE 97] : m \in {252, 253, 254, 255}} \cup {[i \in 1..m |-> IF i % 2 = 0 THEN 46 ELSE 97] : m \in {251, 253, 255}}
With(h, p) == h \o <<58>> \o p
Types == {"ip_or_sock", "addr", "opt", "port", "domain"}
Fam1 == [op : {"parse"}, ty : Types, t : Quads \cup {With(h, p) : h \in GoodV4 \cup {<<97, 46, 98>>, <<97>>, <<>>, <<45>>, <<49>>}, p \in Ports}
          \cup {With(<<91>> \o v \o <<93>>, p) : v \in V6Texts \cup GoodV4 \cup {<<>>, <<58>>}, p \in Ports} \cup {<<91>> \o v \o <<93>> : v \in V6Texts}
          \cup {With(v, p) : v \in V6Texts, p \in {<<57, 57, 57, 57, 57>>, <<122>>}}]
  \cup [op : {"parse"}, ty : {"addr", "opt", "domain", "port"}, t : Names \cup {With(m, <<56>>) : m \in Names}]
Pieces == {<<>>, <<49>>, <<70, 48, 48, 100>>}
Odd == {<<49, 48, 48, 48, 48>>, <<103>>, <<49, 46, 50, 46, 51, 46, 52>>, <<48, 48, 48, 48>>, <<97, 66>>}
SixTexts == {Join(p, 58) : p \in Lists(Pieces, 1, N - 3) \cup Lists({<<>>, <<70, 48, 48, 100>>}, 1, N + 1)} \cup UNION {{Join([p EXCEPT ![i] = o], 58) : i \in 1..Len(p), o \in Odd} : p \in Lists({<<>>, <<49>>}, 2, N)}
Fam2 == [op : {"parse"}, ty : {"ip_or_sock", "opt"}, t : SixTexts] \cup [op : {"parse"}, ty : {"ip_or_sock", "port"}, t : {With(<<91>> \o v \o <<93>>, <<56>>) : v \in SixTexts}]
Words4 == [1..4 -> {0, 1, 255}]
Words6 == [1..8 -> {0, 1}] \cup {[i \in 1..8 |-> IF i < 6 THEN 0 ELSE IF i = 6 THEN x ELSE y] : x \in {0, 65535}, y \in {0, 1, 258, 65535}} \cup {[i \in 1..8 |-> 65535], [i \in 1..8 |-> 4096 + i]}
Hosts == {[w |-> x] : x \in Words4 \cup Words6}
HostN == Hosts \cup {[d |-> x] : x \in {<<97>>, <<97, 46, 98>>, <<65, 45, 49, 46, 99>>, <<97, 46>>}}
Fam3 == [op : {"show"}, ty : {"ip_or_sock"}, host : Hosts, port : {<<>>, <<0>>, <<65535>>}] \cup [op : {"show"}, ty : {"addr"}, host : HostN, port : {<<>>}]
  \cup [op : {"show"}, ty : {"port"}, host : HostN, port : {<<0>>, <<80>>, <<65535>>}] \cup [op : {"show"}, ty : {"opt"}, host : HostN, port : {<<>>, <<0>>, <<8080>>}]
  \cup [op : {"default"}, host : Hosts, port : {<<>>, <<0>>, <<7>>}, p : {0, 7, 65535}] \cup [op : {"conv"}, host : Hosts, p : {0, 65535}]
  \cup [op : {"scope"}, host : {[w |-> [i \in 1..8 |-> IF i = 1 THEN 65152 ELSE 0]]}, p : {80}, s : {0, 1, 77}]
  \cup [op : {"resolve"}, first : BOOLEAN, xs : Lists({[host |-> [w |-> <<1, 2, 3, 4>>], port |-> <<>>], [host |-> [w |-> <<1, 2, 3, 4>>], port |-> <<9>>], [host |-> [w |-> <<0, 0, 0, 0, 0, 0, 0, 1>>], port |-> <<0>>]}, 0, 3)]
Acts == CASE FAM = 1 -> Fam1 [] FAM = 2 -> Fam2 [] OTHER -> Fam3
Init == act \in Acts /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> Eval(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act
(* a text has one meaning: types that accept it agree *)
Agree == act.op = "parse" => \A ty \in Types : LET r == Parse(ty, act.t) q == Parse("opt", act.t) IN r.k = "addr" => q = r \/ q.k = "any"
=============================================================================
