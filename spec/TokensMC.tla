------------------------------ MODULE TokensMC ------------------------------
EXTENDS Tokens, LayersMC
CONSTANTS MINTS, ISSUES, OTHERS
Issue(k, l, f) == [op |-> "issue", kind |-> k, limit |-> l, freezable |-> f, auth |-> 1, uri |-> 1]
I1 == {Issue("fixed", 3, TRUE), Issue("lockable", 0, TRUE), Issue("unlimited", 0, TRUE)}
I2 == I1 \cup {Issue("fixed", 9, TRUE), Issue("fixed", 0, FALSE), Issue("lockable", 0, FALSE), Issue("unlimited", 0, FALSE)}
M1 == {2}
M2 == {1, 2}
M3 == {0, 1, 3, 4, 7, 8}
O1 == {[op |-> "lock"], [op |-> "freeze", unfreezable |-> TRUE], [op |-> "unfreeze"]}
O2 == O1 \cup {[op |-> "freeze", unfreezable |-> FALSE], [op |-> "auth", auth |-> 2], [op |-> "uri", uri |-> 2]}
KActs == {x @@ [id |-> i] : i \in 1..N, x \in ISSUES \cup OTHERS} \cup {[op |-> o, id |-> i, v |-> x] : o \in {"mint", "unmint"}, i \in 1..N, x \in MINTS}
All == UNION {{v[i][1] : i \in {j \in 1..N : v[j] # <<>>}} : v \in AllViews}
Limits == \A r \in All : r.supply \in 0..CAP /\ (r.kind = "fixed" => r.supply <= r.limit) /\ (r.locked => r.kind = "lockable")
(* while no undo and no other view comes in: locked stays locked with its supply, frozen keeps its supply, frozen forever stays *)
Same(x, y, i) == x[i] # <<>> /\ y[i] # <<>>
Kept == [][\A i \in 1..N : (Len(s'.ls) = Len(s.ls) /\ Len(Top(s').log) > Len(Top(s).log) /\ Same(Top(s).v, Top(s').v, i)) =>
             LET r == Top(s).v[i][1]
                 q == Top(s').v[i][1]
             IN (r.locked => q.locked /\ q.supply = r.supply) /\ (Frozen(r) => q.supply = r.supply) /\ (r.fz = "forever" => q.fz = "forever") /\ q.kind = r.kind /\ q.limit = r.limit]_<<s, n>>
=============================================================================
