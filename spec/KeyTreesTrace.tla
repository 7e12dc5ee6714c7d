---------------------------- MODULE KeyTreesTrace ----------------------------
EXTENDS KeyTrees, Terms, TraceBase
KSt0 == [key |-> NoKey, names |-> NoNames]
KSteps(s, a, o) ==
  IF ~KAllowed(s.key, a) THEN {}
  ELSE LET r == KRes(s.key, a) e == r[2] IN
    IF e.k = "err" THEN IF o.k = "err" THEN {[s EXCEPT !.key = r[1]]} ELSE {}
    ELSE IF o.k # "ok" THEN {}
    ELSE LET pairs == <<<<o.pt, e.pt>>, <<o.cc, e.cc>>>> \o (IF e.sk = <<>> THEN <<>> ELSE <<<<o.sk, e.sk>>>>) IN
      IF o.path = e.path /\ o.works /\ AllAgree(s.names, pairs) THEN {[key |-> r[1], names |-> BindAll(s.names, pairs)]} ELSE {}
KExpected(s, a) == IF KAllowed(s.key, a) THEN KRes(s.key, a)[2] ELSE [k |-> "not allowed"]
=============================================================================
