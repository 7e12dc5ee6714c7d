----------------------------- MODULE ChainsBook -----------------------------
(* Prints the catalogue of transactions. *)
EXTENDS Chains, Json
VARIABLE x
Init == x = 0 /\ PrintT(ToJson([s |-> 0, a |-> TxDef, o |-> 0, t |-> 0]))
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
