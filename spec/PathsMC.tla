------------------------------- MODULE PathsMC -------------------------------
(* K01: texts over the characters of paths, child numbers at their bounds, encodings and their mutations.                *)
EXTENDS Paths, Json
CONSTANTS MAXLEN, RICH
VARIABLES phase, r
Alpha == {109, 47, 48, 49, 39, 104} \cup (IF RICH THEN {43, 50} ELSE {})
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<<>>} ELSE LET t == Strs(n - 1) IN t \cup {Append(s, c) : s \in {x \in t : Len(x) = n - 1}, c \in Alpha}
MaxTxt == {MaxDigits, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<50, 49, 52, 55, 52, 56, 51, 54, 53, 48>>, <<51, 48, 48, 48, 48, 48, 48, 48, 48, 48>>, <<49>> \o MaxDigits,
           <<57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 54>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 55>>, <<48>> \o MaxDigits}
Idx == {0, 1, 9, 10, 255, 256, 65535, 65536, 16777215, 16777216, 2147483646, 2147483647}
Nums == {[i |-> i, h |-> h] : i \in Idx, h \in BOOLEAN}
SmallNums == {[i |-> i, h |-> h] : i \in {0, 1, 2147483647}, h \in BOOLEAN}
PathsUpTo(n, S) == UNION {[1..k -> S] : k \in 0..n}
Long(n) == [j \in 1..n |-> [i |-> j, h |-> j % 3 = 0]]
Bys == {0, 1, 127, 128, 255}
Acts ==
  {[op |-> o, s |-> s, i |-> 0, h |-> FALSE] : o \in {"path_parse", "child_parse"}, s \in Strs(MAXLEN)}
  \cup {[op |-> "child_parse", s |-> s \o t, i |-> 0, h |-> FALSE] : s \in MaxTxt, t \in {<<>>, <<39>>, <<104>>, <<39, 39>>, <<72>>}}
  \cup {[op |-> "path_parse", s |-> <<109, 47>> \o s \o t, i |-> 0, h |-> FALSE] : s \in MaxTxt, t \in {<<>>, <<39>>, <<47, 49>>, <<104, 47, 48>>}}
  \cup {[op |-> o, i |-> c.i, h |-> c.h] : o \in {"child_text", "child_next", "child_be"}, c \in Nums}
  \cup {[op |-> o, path |-> p, i |-> 0, h |-> FALSE] : o \in {"path_text", "path_codec", "path_new"}, p \in PathsUpTo(2, Nums) \cup {Long(254), Long(255)}}
  \cup {[op |-> "path_new", path |-> Long(n), i |-> 0, h |-> FALSE] : n \in {255, 256, 257, 511, 512}}
  \cup {[op |-> "path_parse", s |-> PathText(Long(n)), i |-> 0, h |-> FALSE] : n \in {254, 255, 256, 257, 511, 512, 513}}
  \cup {[op |-> "path_diff", path |-> p, sub |-> q, i |-> 0, h |-> FALSE] : p, q \in PathsUpTo(2, SmallNums)}
  \cup {[op |-> "path_decode", b |-> b, i |-> 0, h |-> FALSE] : b \in UNION {{SubSeq(PathBytes(p), 1, n) : n \in 0..Len(PathBytes(p))} \cup {Append(PathBytes(p), 0)} : p \in PathsUpTo(2, SmallNums) \cup {Long(255)}}}
  \cup {[op |-> "u31_decode", b |-> <<x, 1, 0, y>>, i |-> 0, h |-> FALSE] : x, y \in Bys}
Init == phase = 0 /\ r = {} /\ \A a \in Acts : PrintT(ToJson([s |-> 0, a |-> a, o |-> PathFn(a), t |-> 0]))
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED r
Spec == Init /\ [][Next]_<<phase, r>>
RoundTrips == \A p \in PathsUpTo(2, Nums) : ParsePath(PathText(p)) = [k |-> "ok", v |-> p] /\ DecodePath(PathBytes(p)) = [k |-> "ok", v |-> p]
OneText == \A s \in Strs(MAXLEN) : LET x == ParsePath(s) IN x.k = "ok" => LET y == PathText(x.v) IN Len(y) = Len(s) /\ \A i \in 1..Len(s) : y[i] = s[i] \/ <<y[i], s[i]>> = <<39, 104>>
=============================================================================
