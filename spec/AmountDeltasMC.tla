--------------------------- MODULE AmountDeltasMC ---------------------------
(* Exploration with the true 128-bit bounds: the values are the ones where sums meet the bounds.                          *)
EXTENDS AmountDeltas, Json
CONSTANTS DEPTH, ND, RICH
VARIABLES st, total, steps
vars == <<st, total, steps>>
MaxS == IMaxS(SBITS)
MinS == IMinS(SBITS)
UVals == {Int2(1), MaxS, IAdd(MaxS, Int2(1))} \cup (IF RICH THEN {I0, ISub(MaxS, Int2(1)), Pos(NMaxOf(SBITS))} ELSE {})
SVals == {Int2(-1), MinS} \cup (IF RICH THEN {IAdd(MinS, Int2(1)), MaxS} ELSE {})
Acts(s) ==
  {[op |-> o, key |-> k, v |-> v] : o \in {"deposit", "withdraw"}, k \in Keys, v \in UVals}
  \cup {[op |-> "delta", key |-> k, v |-> v] : k \in Keys, v \in SVals}
  \cup (IF Top(s) < ND THEN {[op |-> "push"]} ELSE {[op |-> "unflush"]}) \cup {[op |-> "flush"]}
  \cup {[op |-> o, c |-> <<<<1, v>>, <<NK, I0>>>>] : o \in {"merge", "unmerge"}, v \in SVals}
Change(a) == CASE a.op = "deposit" -> a.v [] a.op = "withdraw" -> INeg(a.v) [] a.op = "delta" -> a.v [] OTHER -> I0
Init == st = St0 /\ total = [k \in Keys |-> I0] /\ steps = 0
Get(e) == IF e = <<>> THEN I0 ELSE e[1]
NextTotal(a, r) ==
  IF r.obs.k = "err" THEN total
  ELSE IF a.op \in {"deposit", "withdraw", "delta"} THEN [total EXCEPT ![a.key] = IAdd(@, Change(a))]
  ELSE IF a.op = "merge" THEN [k \in Keys |-> IAdd(total[k], Get(OfPairs(a.c)[k]))]
  ELSE IF a.op = "unmerge" THEN [k \in Keys |-> ISub(total[k], Get(OfPairs(a.c)[k]))]
  ELSE IF a.op = "unflush" THEN [k \in Keys |-> ISub(total[k], IAdd(Get(st.layers[Top(st)][k]), Get(st.layers[Top(st)][k])))]
  ELSE total
Next == steps < DEPTH /\ \E a \in Acts(st) : LET r == Step(st, a) IN
  /\ PrintT(ToJson([s |-> st, a |-> a, o |-> r.obs, t |-> r.st]))
  /\ st' = r.st /\ total' = NextTotal(a, r) /\ steps' = steps + 1
Spec == Init /\ [][Next]_vars
ViewOf == <<st, total>>
(* A03 *)
Sum(k) == FoldLeft(LAMBDA acc, l : IAdd(acc, Get(l[k])), st.base[k], st.layers)
ExactTotal == \A k \in Keys : Sum(k) = total[k]
NoEmptyEntry == \A i \in 1..Top(st), k \in Keys : st.layers[i][k] # <<I0>>
InRange == \A k \in Keys : IFitsU(st.base[k], SBITS) /\ \A i \in 1..Top(st) : st.layers[i][k] = <<>> \/ IFitsS(st.layers[i][k][1], SBITS)
=============================================================================
