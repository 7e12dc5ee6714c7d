------------------------------- MODULE SigsTrace -------------------------------
EXTENDS Sigs, Terms, TraceBase
LSt0 == [x |-> G0, names |-> NoNames]
Same(e, o, f) == f \in DOMAIN e => (f \in DOMAIN o /\ o[f] = e[f])
LSteps(s, a, o) ==
  IF ~SigAllowed(s.x, a) THEN {}
  ELSE LET r == SigRes(s.x, a)  e == r[2] IN
    IF e.k # o.k \/ ~(\A f \in {"len", "kept", "back", "v"} : Same(e, o, f)) THEN {}
    ELSE LET ps == (IF "out" \in DOMAIN e THEN <<<<o.out, e.out>>>> ELSE <<>>) \o (IF "pre" \in DOMAIN e THEN <<<<o.pre, e.pre>>>> ELSE <<>>)
                   \o (IF e.k = "key" THEN <<<<o.pub, <<a.op, a.key>>>>>> ELSE <<>>)
         IN IF AllAgree(s.names, ps) THEN {[x |-> r[1], names |-> BindAll(s.names, ps)]} ELSE {}
LExpected(s, a) == IF SigAllowed(s.x, a) THEN SigRes(s.x, a)[2] ELSE [k |-> "not allowed"]
=============================================================================
