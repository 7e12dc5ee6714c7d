----------------------------- MODULE DeltasMC -----------------------------
EXTENDS Deltas
CONSTANTS NV,        \* number of values
          ND,        \* maximal number of overlays
          DEPTH      \* bound of the exploration
(* Exploration. `direct` follows the changes that went through the view (create, modify, delete of the visible record)   *)
(* applied straight to a set of records; `honest` says that only such changes were made so far.                           *)
VARIABLES st, direct, honest, steps
vars == <<st, direct, honest, steps>>
Init == st = St0 /\ direct = St0.base /\ honest = TRUE /\ steps = 0

Acts(s) ==
  {[op |-> "put", layer |-> Top(s), key |-> k, old |-> x, new |-> y] : k \in Keys, x \in 0..NV, y \in 0..NV}
  \cup (IF Top(s) < ND THEN {[op |-> "push"]} ELSE {})
  \cup {[op |-> "flush"]}
  \cup (IF s.undos # <<>> /\ s.undos[Len(s.undos)].layer = Top(s) THEN {[op |-> "undo"]} ELSE {})

IsHonest(s, a) == a.op # "put" \/ (a.old = View(s, Top(s), a.key) /\ (a.old # a.new))
NextDirect(s, a, r) ==
  IF r.obs.k = "err" THEN direct
  ELSE IF a.op = "put" THEN [direct EXCEPT ![a.key] = a.new]
  ELSE IF a.op = "undo" THEN Direct(r.st) ELSE direct
Next ==
  /\ steps < DEPTH
  /\ \E a \in Acts(st) : LET r == Step(st, a) IN
       /\ PrintT(ToJson([s |-> st, a |-> a, o |-> r.obs, t |-> r.st]))
       /\ st' = r.st /\ direct' = NextDirect(st, a, r) /\ steps' = steps + 1
       /\ honest' = (honest /\ IsHonest(st, a))
Spec == Init /\ [][Next]_vars
ViewOf == <<st, direct, honest>>

TypeOK == \A i \in 1..Top(st) : \A k \in Keys : st.layers[i][k] = None \/ Len(st.layers[i][k]) = 2
(* A01: what the stack shows is what applying the changes directly shows ... *)
StackIsDirect == honest => Direct(st) = direct
(* ... and flushing never fails and never changes what is shown. *)
FlushIsSound == honest => Flush(st).obs.k = "ok" /\ Direct(Flush(st).st) = Direct(st)
(* A01: a change that contradicts the recorded state never survives a flush down to the records. *)
RECURSIVE FlushAll(_)
FlushAll(s) == IF Top(s) = 1 THEN Flush(s) ELSE IF Flush(s).obs.k = "err" THEN Flush(s) ELSE FlushAll(Flush(s).st)
Chain(s, k, x) == LET C[i \in 0..Top(s)] ==   \* direct application of the stack's changes to one record; -1: contradiction
                        IF i = 0 THEN <<x>> ELSE IF C[i - 1] = <<>> THEN <<>>
                        ELSE IF s.layers[i][k] = None THEN C[i - 1]
                        ELSE IF s.layers[i][k][1] = C[i - 1][1] THEN <<s.layers[i][k][2]>> ELSE <<>>
                  IN C[Top(s)]
ContradictionRefused ==
  LET r == FlushAll(st) IN
  (r.obs.k = "ok") = (\A k \in Keys : Chain(st, k, st.base[k]) # <<>>)
AppliedExactly ==
  LET r == FlushAll(st) IN r.obs.k = "ok" => \A k \in Keys : <<r.st.base[k]>> = Chain(st, k, st.base[k])
(* A02: undo restores what was pending before the merge; a key without pending change may keep a change to itself. *)
Same(c, p, k) == c[k] = p[k] \/ (p[k] = None /\ c[k] # None /\ c[k][1] = c[k][2])
UndoRestores ==
  \A n \in 1..Len(st.undos) : n = Len(st.undos) /\ st.undos[n].layer = Top(st) =>
    LET r == Undo(st) IN r.obs.k = "ok" /\ \A k \in Keys : Same(r.st.layers[st.undos[n].layer], st.undos[n].prev, k)
===========================================================================
