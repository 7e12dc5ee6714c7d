------------------------------ MODULE SealsTrace ------------------------------
EXTENDS Seals, Terms, TraceBase
LSt0 == [x |-> S0, names |-> NoNames]
LSteps(s, a, o) ==
  IF ~SealAllowed(s.x, a) THEN {}
  ELSE LET r == SealRes(s.x, a)  e == r[2] IN
    IF e.k # o.k THEN {}
    ELSE IF e.k \in {"ok", "refused", "err", "panic"} THEN IF "same" \in DOMAIN e => o.same THEN {[s EXCEPT !.x = r[1]]} ELSE {}
    ELSE IF e.k = "sealed" THEN      \* no two sealed texts look the same
      IF o.len = e.len /\ ~Known(s.names, <<"seal", o.v>>) THEN {[x |-> r[1], names |-> Bind(s.names, <<"seal", o.v>>, <<"seal", s.x.n>>)]} ELSE {}
    ELSE IF e.k = "secret" THEN IF Agrees(s.names, <<"secret", o.v>>, <<"dh", e.v>>) THEN {[s EXCEPT !.names = Bind(@, <<"secret", o.v>>, <<"dh", e.v>>)]} ELSE {}
    ELSE IF e.k = "hashed" THEN
      IF /\ o.kept /\ ("len" \in DOMAIN e => o.len = e.len /\ o.salt_len = e.salt_len /\ ~Known(s.names, <<"salt", o.salt>>))
         /\ Agrees(s.names, <<"hash", o.h>>, <<"hash", e.h>>)
      THEN {[x |-> r[1], names |-> LET m == Bind(s.names, <<"hash", o.h>>, <<"hash", e.h>>) IN IF "len" \in DOMAIN e THEN Bind(m, <<"salt", o.salt>>, <<"salt", s.x.n>>) ELSE m]} ELSE {}
    ELSE IF o.v = e.v THEN {[s EXCEPT !.x = r[1]]} ELSE {}
LExpected(s, a) == IF SealAllowed(s.x, a) THEN SealRes(s.x, a)[2] ELSE [k |-> "not allowed"]
=============================================================================
