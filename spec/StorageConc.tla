---------------------------- MODULE StorageConc ----------------------------
(* Transactions of concurrent threads on one database. Committed versions form a sequence; a reader sees one of those    *)
(* that were the latest at some moment while its transaction was being started, throughout its life; writers exclude     *)
(* each other and start from the latest version. A cell (map m, key) holds a number, 0 for no entry.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Threads == 0..5
Cell(a) == 2 * a.m + a.key + 1
Idle == [k |-> "idle"]
CSt0 == [vers |-> <<<<0, 0, 0, 0>>>>, ret |-> 1, tx |-> [t \in Threads |-> Idle]]
Latest(s) == s.vers[Len(s.vers)]
(* an event of a log in real-time order; "..._call" is before the call, "commit" and "abort" before the transaction ends *)
Ev(s, a) ==
  LET x == s.tx[a.t]
      go(y) == {[s EXCEPT !.tx[a.t] = y]}
  IN
  CASE a.e = "rw_call" -> go([k |-> "rwcall"])
    [] a.e = "rw" -> IF \E t \in Threads : s.tx[t].k = "rw" THEN {} ELSE go([k |-> "rw", w |-> Latest(s)])
    [] a.e = "get" -> IF x.k = "rw" THEN IF x.w[Cell(a)] = a.v THEN {s} ELSE {}
                      ELSE LET c == {i \in x.cand : s.vers[i][Cell(a)] = a.v} IN IF c = {} THEN {} ELSE go([x EXCEPT !.cand = c])
    [] a.e = "put" -> go([x EXCEPT !.w[Cell(a)] = a.v])
    [] a.e = "commit" -> {[s EXCEPT !.vers = Append(@, x.w), !.tx[a.t] = [k |-> "committing", n |-> Len(s.vers) + 1]]}
    [] a.e = "abort" -> go([k |-> "aborting"])
    [] a.e = "rw_end" -> {[s EXCEPT !.tx[a.t] = Idle, !.ret = IF x.k = "committing" /\ x.n > @ THEN x.n ELSE @]}
    [] a.e = "ro_call" -> go([k |-> "rocall", lo |-> s.ret])
    [] a.e = "ro" -> go([k |-> "ro", cand |-> x.lo .. Len(s.vers)])
    [] a.e = "ro_end" -> go(Idle)
CSteps(s, a, o) == Ev(s, a)
CExpected(s, a) == IF a.e = "get" THEN [seen |-> IF s.tx[a.t].k = "rw" THEN s.tx[a.t].w ELSE [i \in s.tx[a.t].cand |-> s.vers[i]]] ELSE [writers |-> {t \in Threads : s.tx[t].k = "rw"}]
============================================================================
