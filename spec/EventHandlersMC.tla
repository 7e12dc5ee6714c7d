-------------------------- MODULE EventHandlersMC --------------------------
(* U02: the event handlers as a closed system of two publishers and a waiter: what each handler gets, and what a wait     *)
(* means, hold in every schedule.                                                                                        *)
EXTENDS EventHandlers
CONSTANTS H, PUBS
VARIABLES s, seen, npub, busy, published, wdone
vars == <<s, seen, npub, busy, published, wdone>>
Init == s = [E0 EXCEPT !.subs = H] /\ seen = [h \in 0..(H - 1) |-> <<>>] /\ npub = <<0, 0>> /\ busy = <<FALSE, FALSE>> /\ published = {} /\ wdone = <<>>
Step(a) == \E t \in EvE(s, a) : s' = t
Pub(p) == /\ ~busy[p + 1] /\ npub[p + 1] < PUBS /\ Step([e |-> "pub", t |-> p, v |-> 10 * p + npub[p + 1], h |-> 0])
          /\ npub' = [npub EXCEPT ![p + 1] = @ + 1] /\ busy' = [busy EXCEPT ![p + 1] = TRUE] /\ UNCHANGED <<seen, published, wdone>>
Pubd(p) == /\ busy[p + 1] /\ Step([e |-> "pubd", t |-> p, v |-> 10 * p + npub[p + 1] - 1, h |-> 0]) /\ busy' = [busy EXCEPT ![p + 1] = FALSE]
           /\ published' = published \cup {10 * p + npub[p + 1] - 1} /\ UNCHANGED <<seen, npub, wdone>>
Start == \E j \in First(s) : Step([e |-> "start", t |-> 0, h |-> j.h, v |-> j.v]) /\ UNCHANGED <<seen, npub, busy, published, wdone>>
Fin == \E j \in s.run : Step([e |-> "fin", t |-> 0, h |-> j.h, v |-> j.v]) /\ seen' = [seen EXCEPT ![j.h] = Append(@, j.v)] /\ UNCHANGED <<npub, busy, published, wdone>>
Wait == s.waits = {} /\ wdone = <<>> /\ Step([e |-> "wait", t |-> 0, h |-> 0, v |-> 1]) /\ wdone' = <<published>> /\ UNCHANGED <<seen, npub, busy, published>>
Waited == s.waits # {} /\ Step([e |-> "waited", t |-> 0, h |-> 0, v |-> 1]) /\ UNCHANGED <<seen, npub, busy, published, wdone>>
Next == (\E p \in 0..1 : Pub(p) \/ Pubd(p)) \/ Start \/ Fin \/ Wait \/ Waited
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Filter(_, _)
Filter(q, p) == IF q = <<>> THEN <<>> ELSE IF Head(q) \div 10 = p THEN <<Head(q)>> \o Filter(Tail(q), p) ELSE Filter(Tail(q), p)
InOrder == \A h \in DOMAIN seen, p \in 0..1 : Filter(seen[h], p) = [i \in 1..Len(Filter(seen[h], p)) |-> 10 * p + i - 1]
(* a wait that has begun and ended: everything published before it has been through every handler *)
WaitsReally == wdone # <<>> /\ s.waits = {} => \A h \in DOMAIN seen : wdone[1] \subseteq {seen[h][i] : i \in 1..Len(seen[h])}
AllSeen == <>(\A h \in DOMAIN seen : Len(seen[h]) = 2 * PUBS)
=============================================================================
