----------------------------- MODULE EmissionMC -----------------------------
(* All schedules of up to PER periods over small heights and rates, and texts around the grammar, with the laws of L13.  *)
EXTENDS Emission, Json
CONSTANTS PER, RICH
VARIABLE act
Hs == {NFromInt(i) : i \in 0..3}
Rs == {<<>>, <<1>>, Coins(7)}
RECURSIVE Lists(_, _)
Lists(n, from) == {<<>>} \cup IF n = 0 THEN {} ELSE UNION {{<<<<NFromInt(h), r>>>> \o q : r \in Rs, q \in Lists(n - 1, h + 1)} : h \in from..3}
B64 == NMaxOf(64)
Wides == {<<>>, <<<<NFromInt(5), Ten(20)>>, <<NSub(B64, <<1>>), <<>>>>>>, <<<<B64, <<>>>>>>, <<<<NPow2(63), <<2>>>>, <<B64, <<3>>>>>>}
I(s) == [init |-> Pos(s.init), first |-> Pos(s.first), periods |-> [i \in 1..Len(s.periods) |-> <<Pos(s.periods[i][1]), Pos(s.periods[i][2])>>]]
Sch(i, f, p) == [init |-> i, first |-> f, periods |-> p]
Scheds == {Sch(<<5>>, f, p) : f \in Rs, p \in Lists(PER, 0)}
AtActs == {[op |-> "at", init |-> I(s).init, first |-> I(s).first, periods |-> I(s).periods, h |-> Pos(h)] : s \in Scheds, h \in {NFromInt(i) : i \in 0..5}}
WideActs == {[op |-> "at", init |-> I(s).init, first |-> I(s).first, periods |-> I(s).periods, h |-> Pos(h)]
   : s \in {Sch(i, f, p) : i \in {<<>>, Coins(400000000), NMaxOf(127)}, f \in {<<>>, <<1>>, Ten(18), NPow2(64)}, p \in Wides}, h \in {<<>>, <<1>>, <<5>>, <<6>>, NPow2(63), NAdd(NPow2(63), <<1>>), NSub(B64, <<1>>), B64}}
ShowActs == {[op |-> "show", init |-> I(s).init, first |-> I(s).first, periods |-> I(s).periods] : s \in Scheds \cup {Sch(NAdd(Coins(3), <<1>>), Ten(10), p) : p \in Wides}}
Bits == {<<49>>, <<43>>, <<44>>, <<58>>, <<58, 43>>, <<32>>, <<46>>}
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
TLEN == IF RICH THEN 7 ELSE 5
Texts == UNION {{Cat(q) : q \in [1..n -> Bits]} : n \in 0..TLEN}
Tails == {<<>>} \cup {<<44>> \o p \o e \o r : p \in {<<49>>, <<32, 50>>, <<50, 32>>, <<43, 51>>, <<>>, <<45, 49>>}, e \in {<<58, 43>>, <<58, 32, 43>>, <<58>>, <<43>>}, r \in {<<48>>, <<32, 49>>, <<49, 46, 53>>, <<>>, <<43, 49>>}}
ParseActs == {[op |-> "parse", s |-> t] : t \in Texts}
  \cup {[op |-> "parse", s |-> <<49, 48, 43, 50>> \o x \o y] : x \in Tails, y \in {<<>>, <<44, 49, 58, 43, 57>>, <<44, 50, 58, 43, 56>>, <<44>>}}
NetActs == {[op |-> "net", spacing |-> sp, h |-> Pos(NAdd(NMul(NFromInt(31536000 \div sp), NFromInt(y)), NFromInt(d)))] : sp \in {120, 1, 600, 7}, y \in 0..11, d \in {1, 2, 100}}
  \cup {[op |-> "net", spacing |-> sp, h |-> Pos(NMul(NFromInt(31536000 \div sp), NFromInt(y)))] : sp \in {120, 1, 600, 7}, y \in 1..11}
Init == act \in AtActs \cup WideActs \cup ShowActs \cup ParseActs \cup NetActs
        /\ PrintT(ToJson([s |-> 0, a |-> act, o |-> IF act.op = "at" /\ Wide(In(act), act.h.mag) THEN [k |-> "panic"] ELSE EvalE(act), t |-> 0]))
Next == UNCHANGED act
Spec == Init /\ [][Next]_act
(* L13 *)
(* what is given out with a block is its rate, and nothing else changes the supply *)
Step == act.op = "at" /\ act.h.mag # <<>> =>
  LET s == In(act) h == act.h.mag IN Supply(s, h) = NAdd(Supply(s, NSub(h, <<1>>)), Rate(s, h))
Starts == act.op = "at" => Supply(In(act), <<>>) = act.init.mag
(* a final supply is never exceeded, and reached *)
Caps == act.op = "at" => LET s == In(act) f == Final(s) IN f # <<>> => NLe(Supply(s, act.h.mag), f[1]) /\ Supply(s, NMaxOf(64)) = f[1]
ReadsBack == act.op = "show" => ParseS(ShowS(In(act))) = [k |-> "sched", init |-> act.init.mag, first |-> act.first.mag, periods |-> In(act).periods]
Total == act.op = "net" /\ act.spacing = 120 => EvalE(act).final[1] = Pos(Coins(599990800))
Laws == Step /\ Starts /\ Caps /\ ReadsBack /\ Total
=============================================================================
