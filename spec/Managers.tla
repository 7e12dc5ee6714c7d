------------------------------ MODULE Managers ------------------------------
(* A manager of subsystems 1..n (in the order of registration). Environment: initializations, shutdown procedures and  *)
(* calls end when their gates are opened, well (0), with an error (1) or by a panic (2). Run(m) lets everything happen   *)
(* that can happen by itself; the events of a run are the beginnings and ends of shutdown procedures and the end of the   *)
(* manager.                                                                                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
M0 == [n |-> 0, ph |-> "none"]
NoCall == <<>>
Sub0 == [init |-> 9, st |-> "wait", asked |-> FALSE, gate |-> 9, busy |-> <<>>, taken |-> <<>>, q |-> <<>>, panic |-> FALSE]
New(a) == [n |-> a.n, ph |-> "up", timeout |-> a.timeout, cur |-> 0, t |-> 0, trig |-> FALSE, panic |-> FALSE, flag |-> FALSE,
           sub |-> <<>> \o [i \in 1..a.n |-> Sub0], ev |-> <<>>, ans |-> <<>>]
Subs(m) == 1..m.n
Ev(m, e) == [m EXCEPT !.ev = Append(@, e)]
Ans(m, c, w, i) == [m EXCEPT !.ans = Append(@, <<c, w, i>>)]
RECURSIVE AnsAll(_, _, _, _)
AnsAll(m, q, w, i) == IF q = <<>> THEN m ELSE AnsAll(Ans(m, Head(q)[1], w, i), Tail(q), w, i)
(* the calls a subsystem still holds are lost when it is gone *)
Gone(m, i, p) ==
  LET s == m.sub[i] lost == s.q \o (IF s.busy = <<>> THEN <<>> ELSE <<s.busy>>) \o (IF s.taken = <<>> THEN <<>> ELSE <<s.taken>>)
  IN [AnsAll(m, lost, "lost", i) EXCEPT !.sub[i] = [@ EXCEPT !.st = "gone", !.panic = p, !.q = <<>>, !.busy = <<>>, !.taken = <<>>]]
Blocked(s) == s.taken # <<>> \/ (s.busy # <<>> /\ s.busy[2] = "mut")
Serves(s) == s.st = "up" /\ ~s.asked /\ ~Blocked(s)
Use(s) == IF Serves(s) THEN "ok" ELSE IF s.st = "gone" THEN "err" ELSE "wait"
(* --- one step of subsystem i --- *)
SubCan(m, i) ==
  LET s == m.sub[i] IN
  \/ s.st = "wait" /\ s.init # 9
  \/ s.st = "up" /\ s.taken # <<>> /\ s.busy = <<>>
  \/ Serves(s) /\ s.q # <<>>
  \/ s.st = "up" /\ s.asked /\ s.busy = <<>> /\ s.taken = <<>>
  \/ s.st = "stopping" /\ s.gate # 9
SubStep(m, i) ==
  LET s == m.sub[i] IN
  CASE s.st = "wait" /\ s.init # 9 -> IF s.init = 0 THEN [m EXCEPT !.sub[i].st = "up"] ELSE Gone(m, i, s.init = 2)
    [] s.st = "up" /\ s.taken # <<>> /\ s.busy = <<>> -> [Ans(m, s.taken[1], "ok", i) EXCEPT !.sub[i].taken = <<>>]
    [] Serves(s) /\ s.q # <<>> ->
         LET c == Head(s.q) r == [m EXCEPT !.sub[i].q = Tail(@)] IN
         IF c[2] = "mut" /\ s.busy # <<>> THEN [r EXCEPT !.sub[i].taken = c]
         ELSE IF c[3] THEN [r EXCEPT !.sub[i].busy = c]
         ELSE Ans(r, c[1], "ok", i)
    [] s.st = "up" /\ s.asked /\ s.busy = <<>> /\ s.taken = <<>> ->
         Ev(Ev([m EXCEPT !.sub[i].st = "stopping"], <<"stopping", i, m.flag>>), <<"uses", i, <<>> \o [j \in 1..(i - 1) |-> Use(m.sub[j])]>>)
    [] s.st = "stopping" /\ s.gate # 9 -> IF s.gate = 0 THEN Gone(Ev(m, <<"stopped", i>>), i, FALSE) ELSE Gone(m, i, TRUE)
(* --- one step of the manager --- *)
Ask(m, i) == IF i = 0 THEN Ev([m EXCEPT !.ph = "over"], IF m.panic THEN <<"panicked">> ELSE <<"over">>)
             ELSE [m EXCEPT !.cur = i, !.t = 0, !.sub[i].asked = TRUE]
MgrCan(m) ==
  \/ m.ph = "up" /\ (m.trig \/ m.n = 0 \/ \E i \in Subs(m) : m.sub[i].st = "gone")
  \/ m.ph = "down" /\ (m.sub[m.cur].st = "gone" \/ (m.timeout > 0 /\ m.t >= m.timeout))
MgrStep(m) ==
  IF m.ph = "up" THEN Ask([m EXCEPT !.ph = "down", !.flag = TRUE], m.n)
  ELSE Ask([m EXCEPT !.panic = @ \/ (m.sub[m.cur].st = "gone" /\ m.sub[m.cur].panic)], m.cur - 1)
RECURSIVE Run(_)
Run(m) ==
  IF m.ph = "none" THEN m
  ELSE LET can == {i \in Subs(m) : SubCan(m, i)} IN
    IF can # {} THEN Run(SubStep(m, CHOOSE i \in can : \A j \in can : i <= j))
    ELSE IF MgrCan(m) THEN Run(MgrStep(m))
    ELSE m
(* --- actions of the environment --- *)
MAct(m, a) ==
  CASE a.op = "start" -> New(a)
    [] a.op = "init" -> [m EXCEPT !.sub[a.i].init = a.how]
    [] a.op = "end" -> [m EXCEPT !.sub[a.i].gate = a.how]
    [] a.op = "trigger" -> [m EXCEPT !.trig = TRUE]
    [] a.op = "pass" -> [m EXCEPT !.t = @ + a.t]
    [] a.op \in {"call", "busy"} ->
         IF m.sub[a.i].st = "gone" THEN Ans(m, a.c, "closed", a.i) ELSE [m EXCEPT !.sub[a.i].q = Append(@, <<a.c, a.kind, a.op = "busy">>)]
    [] a.op = "free" ->
         LET i == CHOOSE j \in Subs(m) : m.sub[j].busy # <<>> /\ m.sub[j].busy[1] = a.c IN
         IF a.how = 0 THEN Ans([m EXCEPT !.sub[i].busy = <<>>], a.c, "ok", i) ELSE Gone(m, i, TRUE)
MAllowed(m, a) ==
  CASE a.op = "start" -> m.ph = "none"
    [] m.ph = "none" -> FALSE
    [] a.op = "init" -> a.i \in Subs(m) /\ m.sub[a.i].init = 9
    [] a.op = "end" -> a.i \in Subs(m) /\ m.sub[a.i].gate = 9
    [] a.op = "trigger" -> TRUE
    [] a.op = "pass" -> TRUE
    [] a.op = "call" -> a.i \in Subs(m)
    [] a.op = "busy" -> a.i \in Subs(m) /\ m.sub[a.i].busy = <<>> /\ m.sub[a.i].taken = <<>> /\ m.sub[a.i].q = <<>> /\ m.sub[a.i].st = "up" /\ ~m.sub[a.i].asked
    [] a.op = "free" -> \E i \in Subs(m) : m.sub[i].busy # <<>> /\ m.sub[i].busy[1] = a.c
                                           /\ (a.how = 2 => m.sub[i].taken = <<>> /\ m.sub[i].q = <<>>)
MRes(m, a) ==      \* the next state, and what is seen; answers are ordered by call
  LET r == Run(MAct(m, a)) IN
  <<[r EXCEPT !.ev = <<>>, !.ans = <<>>], [k |-> "events", ev |-> r.ev, ans |-> <<>> \o SortSeq(r.ans, LAMBDA x, y : x[1] < y[1])]>>
=============================================================================
