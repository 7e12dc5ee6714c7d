---------------------------- MODULE SubsystemsMC ----------------------------
(* The subsystem's task as it is built: a queue of calls, a loop that runs modifying calls itself and hands read-only    *)
(* calls to workers, a fair lock, and a shutdown channel. Every step is checked to be an event Subsystems.tla allows,    *)
(* and every state at rest to satisfy its progress condition.                                                            *)
EXTENDS Subsystems
CONSTANTS N, MAXC
VARIABLES s, q, loop, ws, open, asked, n
vars == <<s, q, loop, ws, open, asked, n>>
(* loop: <<"init">>, <<"idle">>, <<"wait", i>>, <<"run", i>>, <<"work">>, <<"drain">>, <<"done">> *)
Init == s = [Y0 EXCEPT !.ph = "up"] /\ q = <<>> /\ loop = <<"init">> /\ ws = {} /\ open = {} /\ asked = FALSE /\ n = 0
Forms == {"call_async_mut", "call_async", "submit_mut", "submit"}
Env == n < N /\ n' = n + 1 /\
  \/ \E f \in Forms : Cardinality(DOMAIN s.calls) < MAXC /\
       LET i == Cardinality(DOMAIN s.calls) + 1 t == Submit(s, i, f, IF f = "submit_mut" THEN 1 ELSE 0) IN
       /\ s' = Sent(IF loop[1] = "done" THEN Closed(t, i) ELSE t, i)
       /\ q' = IF loop[1] = "done" THEN q ELSE Append(q, i)
       /\ UNCHANGED <<loop, ws, open, asked>>
  \/ \E i \in DOMAIN s.calls : i \notin open /\ s.calls[i].gated /\ open' = open \cup {i} /\ UNCHANGED <<s, q, loop, ws, asked>>
  \/ ~asked /\ asked' = TRUE /\ s' = Event(s, <<"ask">>) /\ UNCHANGED <<q, loop, ws, open>>
  \/ ~s.ready /\ s' = [s EXCEPT !.ready = TRUE] /\ UNCHANGED <<q, loop, ws, open, asked>>
Free(i) == ~s.calls[i].gated \/ i \in open
Told(t, i) == IF s.calls[i].waits THEN Got(t, i, i, s.calls[i].n) ELSE t
Task ==
  \/ loop[1] = "init" /\ s.ready /\ loop' = <<"idle">> /\ UNCHANGED <<s, q, ws>>
  \/ loop[1] = "idle" /\ asked /\ loop' = <<"drain">> /\ UNCHANGED <<s, q, ws>>
  \/ loop[1] = "idle" /\ ~asked /\ q # <<>> /\ q' = Tail(q) /\ UNCHANGED s /\
       IF s.calls[Head(q)].mut THEN loop' = <<"wait", Head(q)>> /\ UNCHANGED ws ELSE ws' = ws \cup {Head(q)} /\ UNCHANGED loop
  \/ loop[1] = "idle" /\ ~asked /\ q = <<>> /\ s.work > 0 /\ loop' = <<"work">> /\ UNCHANGED <<s, q, ws>>
  \/ loop[1] = "wait" /\ Active(s) = {} /\ loop' = <<"run", loop[2]>> /\ s' = Begin(s, loop[2], s.n + 1) /\ UNCHANGED <<q, ws>>
  \/ loop[1] = "run" /\ Free(loop[2]) /\ loop' = <<"idle">> /\ s' = Told(End(s, loop[2], s.n), loop[2]) /\ UNCHANGED <<q, ws>>
  \/ loop[1] = "work" /\ Active(s) = {} /\ loop' = <<"idle">> /\ s' = Work(s, s.work - 1) /\ UNCHANGED <<q, ws>>
  \/ loop[1] = "drain" /\ ws = {} /\ Active(s) = {} /\ loop' = <<"done">> /\ q' = <<>> /\ UNCHANGED ws /\
       s' = Over(Events(Stop(s, s.n), SelectSeq([j \in 1..Len(q) |-> IF s.calls[q[j]].waits THEN <<"lost", q[j]>> ELSE <<"none">>], LAMBDA x : x # <<"none">>)))
  \/ \E i \in ws : loop[1] # "run" /\ ws' = ws \ {i} /\ s' = Begin(s, i, s.n) /\ UNCHANGED <<q, loop>>
  \/ \E i \in Active(s) : ~s.calls[i].mut /\ Free(i) /\ s' = Told(End(s, i, s.n), i) /\ UNCHANGED <<q, loop, ws>>
Next == Env \/ (Task /\ UNCHANGED <<open, asked, n>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(Task /\ UNCHANGED <<open, asked, n>>)
ViewOf == vars
Allowed == s.ph # "bad"
AtRest == ~ENABLED (Task /\ UNCHANGED <<open, asked, n>>) => Rest(s, open)
(* no modifying call overlaps another call, and nothing runs after the end *)
Exclusive == Cardinality(Active(s)) > 1 => ActiveMut(s) = {}
NothingAfter == s.ph = "over" => Active(s) = {}
Settles == <>[](~ENABLED (Task /\ UNCHANGED <<open, asked, n>>))
=============================================================================
