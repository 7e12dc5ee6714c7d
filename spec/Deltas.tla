------------------------------ MODULE Deltas ------------------------------
(* Overlays of pending record changes (accounting/src/delta).                                                           *)
(* A record value is 0 (absent) or a positive number. A change is <<old, new>>; <<>> means no change is pending.        *)
(* The state is a stack of overlays over the base records; flushing merges an overlay into the one below it, or the     *)
(* lowest overlay into the records. Every merge returns undo data, kept in `undos` newest last.                          *)
EXTENDS Naturals, Sequences, TLC, FiniteSets, Json, SequencesExt
CONSTANT NK          \* number of keys
Keys == 1..NK

None == <<>>
EmptyLayer == [k \in Keys |-> None]
St0 == [base |-> [k \in Keys |-> 0], layers |-> <<EmptyLayer>>, undos |-> <<>>]

(* The value seen through the stack from layer i downwards. *)
RECURSIVE View(_, _, _)
View(st, i, k) == IF i = 0 THEN st.base[k]
                  ELSE IF st.layers[i][k] # None THEN st.layers[i][k][2] ELSE View(st, i - 1, k)
Top(st) == Len(st.layers)
Direct(st) == [k \in Keys |-> View(st, Top(st), k)]

(* Composition of a pending change with a following one; the error kind otherwise. *)
Compose(cur, d) == IF cur = None THEN [ok |-> TRUE, v |-> d]
                   ELSE IF cur[2] = d[1] THEN [ok |-> TRUE, v |-> <<cur[1], d[2]>>]
                   ELSE [ok |-> FALSE, e |-> "DeltaDataMismatch"]
(* A change applied to a record. *)
Apply(rec, d) ==
  IF d = None THEN [ok |-> TRUE, v |-> rec]
  ELSE IF rec = 0 THEN (IF d[1] = 0 THEN [ok |-> TRUE, v |-> d[2]]
                        ELSE IF d[2] = 0 THEN [ok |-> FALSE, e |-> "RemoveNonexistingData"]
                        ELSE [ok |-> FALSE, e |-> "ModifyNonexistingData"])
  ELSE IF d[1] = 0 THEN (IF d[2] = 0 THEN [ok |-> FALSE, e |-> "DeltaDataMismatch"]
                         ELSE [ok |-> FALSE, e |-> "DataCreatedMultipleTimes"])
  ELSE IF d[1] = rec THEN [ok |-> TRUE, v |-> d[2]]
  ELSE [ok |-> FALSE, e |-> "DeltaDataMismatch"]
Invert(d) == IF d = None THEN None ELSE <<d[2], d[1]>>

SetLayer(st, i, c) == [st EXCEPT !.layers[i] = c]
FirstBad(c, d, F(_, _)) == LET B == {k \in Keys : d[k] # None /\ ~F(c[k], d[k]).ok}
                           IN IF B = {} THEN 0 ELSE CHOOSE k \in B : \A j \in B : k <= j
Merge(c, d) == LET b == FirstBad(c, d, Compose) IN
  IF b # 0 THEN [ok |-> FALSE, e |-> Compose(c[b], d[b]).e]
  ELSE [ok |-> TRUE, v |-> [k \in Keys |-> IF d[k] = None THEN c[k] ELSE Compose(c[k], d[k]).v]]

Err(st, e) == [st |-> st, obs |-> [k |-> "err", e |-> e]]
Ok(st, u) == [st |-> st, obs |-> [k |-> "ok", undo |-> u, base |-> st.base, layers |-> st.layers]]

(* put: merge one change into overlay a.layer.   create/modify/delete of a.key go through the view of the top layer.     *)
PutD(st, i, k, d) ==
  LET r == Compose(st.layers[i][k], d) IN
  IF ~r.ok THEN Err(st, r.e)
  ELSE LET s1 == SetLayer(st, i, [st.layers[i] EXCEPT ![k] = r.v])
           u == [j \in Keys |-> IF j = k THEN Invert(d) ELSE None]
       IN Ok([s1 EXCEPT !.undos = Append(@, [layer |-> i, u |-> u, prev |-> st.layers[i]])], u)
Flush(st) ==
  LET n == Top(st) IN
  IF n = 1 THEN
    LET d == st.layers[1]
        b == FirstBad(st.base, d, Apply)
    IN IF b # 0 THEN Err(st, Apply(st.base[b], d[b]).e)
       ELSE LET s1 == [base |-> [k \in Keys |-> Apply(st.base[k], d[k]).v], layers |-> <<EmptyLayer>>, undos |-> <<>>]
            IN Ok(s1, EmptyLayer)
  ELSE
    LET d == st.layers[n]
        m == Merge(st.layers[n - 1], d)
    IN IF ~m.ok THEN Err(st, m.e)
       ELSE LET u == [k \in Keys |-> Invert(d[k])]
                keep == SelectSeq(st.undos, LAMBDA x : x.layer < n)
            IN Ok([base |-> st.base,
                   layers |-> [i \in 1..(n - 1) |-> IF i = n - 1 THEN m.v ELSE st.layers[i]],
                   undos |-> Append(keep, [layer |-> n - 1, u |-> u, prev |-> st.layers[n - 1]])], u)
Undo(st) ==
  LET x == st.undos[Len(st.undos)]
      m == Merge(st.layers[x.layer], x.u)
  IN IF ~m.ok THEN Err(st, m.e)
     ELSE Ok([SetLayer(st, x.layer, m.v) EXCEPT !.undos = SubSeq(@, 1, Len(@) - 1)], EmptyLayer)

Step(st, a) ==
  CASE a.op = "put" -> PutD(st, a.layer, a.key, <<a.old, a.new>>)
    [] a.op = "push" -> Ok([st EXCEPT !.layers = Append(@, EmptyLayer)], EmptyLayer)
    [] a.op = "flush" -> Flush(st)
    [] a.op = "undo" -> Undo(st)
    [] a.op = "get" -> LET d == st.layers[a.layer][a.key] IN
         [st |-> st, obs |-> [k |-> "get", r |-> IF d = None THEN "missing" ELSE IF d[2] = 0 THEN "deleted" ELSE "present",
                              v |-> IF d = None THEN 0 ELSE d[2]]]
    [] a.op = "apply" ->   \* combine a record with a change, outside the stack
         LET r == Apply(a.rec, a.d) IN
         [st |-> st, obs |-> IF r.ok THEN [k |-> "val", v |-> r.v] ELSE [k |-> "err", e |-> r.e]]

(* What remains of an overlay after a refused change is not specified for the refused keys; the others are untouched and *)
(* nothing of the refused change is applied. `post` is the overlay as the code left it.                                   *)
Refused(st, a, o) ==
  "post" \in DOMAIN o =>
    LET i == IF a.op = "put" THEN a.layer ELSE IF a.op = "flush" THEN Top(st) - 1 ELSE st.undos[Len(st.undos)].layer
        c == st.layers[i]
        d == IF a.op = "put" THEN [k \in Keys |-> IF k = a.key THEN <<a.old, a.new>> ELSE None]
             ELSE IF a.op = "flush" THEN st.layers[Top(st)] ELSE st.undos[Len(st.undos)].u
    IN \A k \in Keys : \/ o.post[k] = c[k]
                       \/ d[k] # None /\ ~Compose(c[k], d[k]).ok /\ o.post[k] = None
                       \/ a.op # "put" /\ d[k] # None /\ Compose(c[k], d[k]).ok /\ o.post[k] = Compose(c[k], d[k]).v
Steps(st, a, o) ==
  LET r == Step(st, a) IN
  IF o.k # r.obs.k THEN {}
  ELSE IF o.k = "err" THEN (IF o.e = r.obs.e /\ Refused(st, a, o) THEN {r.st} ELSE {})
  ELSE IF \A f \in DOMAIN r.obs : f \in DOMAIN o /\ o[f] = r.obs[f] THEN {r.st} ELSE {}
Expected(st, a) == Step(st, a).obs
===========================================================================
