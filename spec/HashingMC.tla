------------------------------ MODULE HashingMC ------------------------------
(* K04. FAM 1: all sequences of writes, resets, finishes and copies over few pieces; FAM 2: one-shot entry points;       *)
(* FAM 3: comparisons of all short strings.                                                                              *)
EXTENDS Hashing, Json
CONSTANTS FAM, N, RICH
VARIABLES s, n
Algs == {"blake2b", "blake2b32", "sha1", "sha256", "sha3", "ripemd160", "sha256ripemd160"}
Pieces == {<<>>, <<<<7, 1>>>>, <<<<0, 63>>>>, <<<<7, 128>>>>} \cup (IF RICH THEN {<<<<0, 64>>, <<1, 8>>>>, <<<<255, 127>>>>} ELSE {})
Sizes == {0, 1, 8, 55, 56, 57, 63, 64, 65, 71, 72, 73, 111, 112, 113, 119, 127, 128, 129, 143, 144, 145, 255, 256, 257, 1000}
Chars == {0, 1, 128, 255}
Strs(m) == UNION {[1..i -> Chars] : i \in 0..m}
Acts ==
  CASE FAM = 1 -> {[op |-> "write", d |-> p] : p \in Pieces} \cup {[op |-> o] : o \in {"clear", "final", "save", "back"}} \cup {[op |-> "write2", d |-> <<<<1, 2>>>>, e |-> <<<<1, 1>>, <<0, 3>>>>]}
    [] FAM = 2 -> {[op |-> "once", alg |-> g, d |-> <<<<x, z>>>>] : g \in Algs, x \in {0, 97}, z \in Sizes}
         \cup {[op |-> o, key |-> <<<<x, z>>>>, ps |-> ps] : o \in {"mac", "mac_split"}, x \in {0, 9}, z \in {0, 1, 64, 127, 128, 129, 200}, ps \in {<<>>, <<<<>>>>, <<<<<<1, 64>>>>, <<<<2, 65>>>>>>}}
    [] OTHER -> {[op |-> "eq", m |-> m, t |-> 8, x |-> x, y |-> y] : m \in {"normal", "resistant"}, x, y \in Strs(N)}
         \cup {[op |-> "eq", m |-> m, t |-> t, x |-> x, y |-> y] : m \in {"normal", "resistant"}, t \in {1, 16, 64}, x, y \in Strs(2)}
Init == s = H0 /\ n = 0 /\ (FAM > 1 => \A a \in Acts : PrintT(ToJson([s |-> 0, a |-> a, o |-> HashRes(s, a)[2], t |-> 0])))
Next == FAM = 1 /\ n < N /\
  IF n = 0 THEN \E g \in Algs : LET a == [op |-> "new", alg |-> g] IN s' = HashRes(s, a)[1] /\ n' = 1 /\ PrintT(ToJson([s |-> <<s, n>>, a |-> a, o |-> Done, t |-> <<s', n'>>]))
  ELSE \E a \in Acts : HashAllowed(s, a) /\ s' = HashRes(s, a)[1] /\ n' = n + 1 /\ PrintT(ToJson([s |-> <<s, n>>, a |-> a, o |-> HashRes(s, a)[2], t |-> <<s', n'>>]))
Spec == Init /\ [][Next]_<<s, n>>
Normal == \A i \in 1..Len(s.data) : s.data[i][2] > 0 /\ (i > 1 => s.data[i][1] # s.data[i - 1][1])
(* splitting a write anywhere makes no difference *)
SplitFree == \A p, q \in Pieces : Join(Join(s.data, p), q) = Join(s.data, Join(p, q))
=============================================================================
