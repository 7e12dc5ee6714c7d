----------------------------- MODULE CountersMC -----------------------------
(* U02: SEQ: all histories of one thread with up to G guards and W waits; otherwise the threads of the closed system, in  *)
(* which a wait returns only at a moment with no outstanding guard.                                                      *)
EXTENDS Counters, Json
CONSTANTS SEQ, G, W
VARIABLES s, k
Acts == {[op |-> o, i |-> i] : o \in {"inc", "dec"}, i \in 0..(G - 1)} \cup {[op |-> o] : o \in {"wait", "drop"}}
Init == IF SEQ THEN s = S0 /\ k = 0 ELSE s = C0 /\ k = [t \in 0..3 |-> 0]
NextSeq == \E a \in Acts : SAllowed(s, a) /\ LET r == SRes(s, a) IN
  /\ r[1].waits <= W /\ s' = r[1] /\ k' = 0
  /\ PrintT(ToJson([s |-> s, a |-> a, o |-> r[2], t |-> r[1]]))
(* threads 0 and 1 hold and release guards, 2 waits, 3 looks *)
Prog(t) == CASE t < 2 -> <<"inc", "dec", "inc", "dec">> [] t = 2 -> <<"wait", "wait">> [] t = 3 -> <<"val">>
Ret(e) == CASE e = "val" -> "vald" [] e = "inc" -> "incd" [] e = "dec" -> "decd" [] e = "wait" -> "waited"
NextConc == \E t \in 0..3 :
  \/ /\ s.th[t].k = "idle" /\ k[t] < Len(Prog(t)) /\ s' \in EvC(s, [e |-> Prog(t)[k[t] + 1], t |-> t, v |-> 0]) /\ UNCHANGED k
  \/ s' \in Effect(s, t) /\ UNCHANGED k
  \/ /\ s.th[t].k \in {"done", "got"} /\ k' = [k EXCEPT ![t] = @ + 1]
     /\ s' \in EvC(s, [e |-> Ret(Prog(t)[k[t] + 1]), t |-> t, v |-> IF s.th[t].k = "got" THEN s.th[t].v ELSE 0])
Next == IF SEQ THEN NextSeq ELSE NextConc
Spec == Init /\ [][Next]_<<s, k>> /\ WF_<<s, k>>(Next)
Guards == ~SEQ => s.n = Cardinality({t \in 0..1 : (k[t] % 2 = 0 /\ s.th[t].k = "done") \/ (k[t] % 2 = 1 /\ s.th[t].k # "done")})
WaitsAtZero == [][SEQ \/ \A t \in 0..3 : s.th[t].k = "wait" /\ s'.th[t].k # "wait" => s.n = 0]_<<s, k>>
AllEnd == <>(\A t \in 0..3 : k[t] = Len(Prog(t)))
=============================================================================
