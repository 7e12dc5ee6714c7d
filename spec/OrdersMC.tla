------------------------------ MODULE OrdersMC ------------------------------
EXTENDS Orders, LayersMC
CONSTANTS PRICES, FILLS
OActs == {[op |-> "create", id |-> i, key |-> i, askc |-> i, givec |-> 0, ask |-> p[1], give |-> p[2]] : i \in 1..N, p \in PRICES}
  \cup {[op |-> "fill", id |-> i, ver |-> w, v |-> x] : i \in 1..N, w \in {0, 1}, x \in FILLS}
  \cup {[op |-> o, id |-> i] : o \in {"freeze", "conclude"}, i \in 1..N}
P1 == {<<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<0, 1>>, <<1, 0>>}
P2 == {<<2, 5>>, <<3, 2>>}
F6 == 0..6
P3 == {<<x, y>> : x \in 1..5, y \in 1..5}
All == UNION {{v[i][1] : i \in {j \in 1..N : v[j] # <<>>}} : v \in AllViews}
(* never more than offered, never more than asked, and at the original price or better for the order *)
Bounded == \A r \in All : r.ask \in 0..r.ask0 /\ r.give \in 0..r.give0
Fair == \A r \in All : (r.give0 - r.give) * r.ask0 <= (r.ask0 - r.ask) * r.give0
=============================================================================
