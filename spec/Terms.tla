-------------------------------- MODULE Terms --------------------------------
(* Observed byte strings are replaced by tokens, one per different byte string. The specification says which term a      *)
(* token stands for; equal terms must be equal bytes, and different terms different bytes.                               *)
EXTENDS Naturals, Sequences, TLC
NoNames == <<>>
Agrees(names, tok, term) ==      \* names: sequence of pairs <<token, term>>
  \A i \in 1..Len(names) : (names[i][1] = tok) <=> (names[i][2] = term)
Known(names, tok) == \E i \in 1..Len(names) : names[i][1] = tok
Bind(names, tok, term) == IF Known(names, tok) THEN names ELSE Append(names, <<tok, term>>)
RECURSIVE AllAgree(_, _)
AllAgree(names, pairs) ==
  IF pairs = <<>> THEN TRUE
  ELSE Agrees(names, Head(pairs)[1], Head(pairs)[2]) /\ AllAgree(Bind(names, Head(pairs)[1], Head(pairs)[2]), Tail(pairs))
RECURSIVE BindAll(_, _)
BindAll(names, pairs) == IF pairs = <<>> THEN names ELSE BindAll(Bind(names, Head(pairs)[1], Head(pairs)[2]), Tail(pairs))
=============================================================================
