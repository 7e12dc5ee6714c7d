--------------------------- MODULE AmountDeltas ---------------------------
(* Accumulated balance changes (accounting/src/delta/delta_amount_collection.rs, combine.rs): overlays of signed sums    *)
(* per account over unsigned balances. An overlay holds <<>> (no pending change) or <<sum>> per account.                  *)
EXTENDS BigNum, TLC, FiniteSets
CONSTANTS NK, SBITS      \* accounts; width of the amounts (128 in the code)
Keys == 1..NK
EmptyL == [k \in Keys |-> <<>>]
St0 == [base |-> [k \in Keys |-> I0], layers |-> <<EmptyL>>]
Top(st) == Len(st.layers)

Good(v) == [ok |-> TRUE, v |-> v]
Bad(e) == [ok |-> FALSE, e |-> e]
(* cur, result: <<>> or <<sum>>; an account whose changes cancel out has no entry *)
Entry(x) == IF x = I0 THEN <<>> ELSE <<x>>
AddTo(cur, x) == IF cur = <<>> THEN Good(Entry(x))
                 ELSE LET s == IAdd(cur[1], x) IN
                      IF IFitsS(s, SBITS) THEN Good(Entry(s)) ELSE Bad("ArithmeticErrorDeltaAdditionFailed")
SubFrom(cur, x) == LET n == INeg(x) IN IF IFitsS(n, SBITS) THEN AddTo(cur, n) ELSE Bad("DeltaUndoNegationError")
ToSigned(u) == IF IFitsS(u, SBITS) THEN Good(u) ELSE Bad("ArithmeticErrorToSignedFailed")
(* balance + pending change *)
Combine(bal, d) ==
  IF d = <<>> THEN Good(bal)
  ELSE IF ~IFitsS(bal, SBITS) THEN Bad("ArithmeticErrorToSignedFailed")
  ELSE LET s == IAdd(bal, d[1]) IN
       IF ~IFitsS(s, SBITS) THEN Bad("ArithmeticErrorDeltaAdditionFailed")
       ELSE IF s.neg THEN Bad("ArithmeticErrorSumToUnsignedFailed") ELSE Good(s)

(* per-account operation over all accounts in order; the first failure counts *)
All(c, d, F(_, _)) ==
  LET r == [k \in Keys |-> IF d[k] = <<>> THEN Good(c[k]) ELSE F(c[k], d[k][1])]
      bad == {k \in Keys : ~r[k].ok}
  IN IF bad = {} THEN Good([k \in Keys |-> r[k].v]) ELSE r[CHOOSE k \in bad : \A j \in bad : k <= j]

OkOf(st) == [st |-> st, obs |-> [k |-> "ok", base |-> st.base, layers |-> st.layers]]
ErrOf(st, e) == [st |-> st, obs |-> [k |-> "err", e |-> e]]
Elem(st, k, r) == IF r.ok THEN OkOf([st EXCEPT !.layers[Top(st)][k] = r.v]) ELSE ErrOf(st, r.e)
OfPairs(ps) == [k \in Keys |-> LET S == {i \in 1..Len(ps) : ps[i][1] = k} IN
                   IF S = {} THEN <<>> ELSE <<ps[CHOOSE i \in S : \A j \in S : j <= i][2]>>]
Step(st, a) ==
  LET n == Top(st)
      cur == st.layers[n] IN
  CASE a.op = "deposit" -> LET s == ToSigned(a.v) IN IF s.ok THEN Elem(st, a.key, AddTo(cur[a.key], s.v)) ELSE ErrOf(st, s.e)
    [] a.op = "withdraw" -> LET s == ToSigned(a.v) IN IF s.ok THEN Elem(st, a.key, AddTo(cur[a.key], INeg(s.v))) ELSE ErrOf(st, s.e)
    [] a.op = "delta" -> Elem(st, a.key, AddTo(cur[a.key], a.v))
    [] a.op = "push" -> OkOf([st EXCEPT !.layers = Append(@, EmptyL)])
    [] a.op = "merge" -> LET r == All(cur, OfPairs(a.c), AddTo) IN IF r.ok THEN OkOf([st EXCEPT !.layers[n] = r.v]) ELSE ErrOf(st, r.e)
    [] a.op = "unmerge" -> LET r == All(cur, OfPairs(a.c), SubFrom) IN IF r.ok THEN OkOf([st EXCEPT !.layers[n] = r.v]) ELSE ErrOf(st, r.e)
    [] a.op \in {"flush", "unflush"} /\ n > 1 ->
         LET r == IF a.op = "flush" THEN All(st.layers[n - 1], cur, AddTo) ELSE All(st.layers[n - 1], cur, SubFrom) IN
         IF r.ok THEN OkOf([st EXCEPT !.layers = [i \in 1..(n - 1) |-> IF i = n - 1 THEN r.v ELSE st.layers[i]]]) ELSE ErrOf(st, r.e)
    [] a.op = "flush" /\ n = 1 ->
         LET r == [k \in Keys |-> Combine(st.base[k], cur[k])]
             bad == {k \in Keys : ~r[k].ok} IN
         IF bad = {} THEN OkOf([base |-> [k \in Keys |-> r[k].v], layers |-> <<EmptyL>>])
         ELSE ErrOf(st, r[CHOOSE k \in bad : \A j \in bad : k <= j].e)
    [] a.op = "apply" -> LET r == Combine(a.v, a.d) IN
         [st |-> st, obs |-> IF r.ok THEN [k |-> "val", v |-> r.v] ELSE [k |-> "err", e |-> r.e]]
Steps(st, a, o) == LET r == Step(st, a) IN
  IF o.k = r.obs.k /\ \A f \in DOMAIN r.obs : f \in DOMAIN o /\ o[f] = r.obs[f] THEN {r.st} ELSE {}
Expected(st, a) == Step(st, a).obs
===========================================================================
