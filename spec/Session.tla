------------------------------ MODULE Session -------------------------------
(* A session with the library (C17).  The library has no memory: the answer to *)
(* a call is a function of the call alone, whatever was asked before.          *)
(*   answers   what is known of that function: call -> answer                  *)
(*   history   the calls made so far in this process                           *)
EXTENDS Integers, Sequences

CONSTANTS Calls, Answers, F(_) \* F is the function the library computes

VARIABLES history, answers
vars == <<history, answers>>

Init == history = <<>> /\ answers = [c \in {} |-> 0]
Ask(c, a) ==
  /\ a = F(c)
  /\ history' = Append(history, c)
  /\ answers' = [x \in DOMAIN answers \cup {c} |-> IF x = c THEN a ELSE answers[x]]
Next == \E c \in Calls : \E a \in Answers : Ask(c, a)
Spec == Init /\ [][Next]_vars

TypeOK == DOMAIN answers \subseteq Calls
(* what is known does not change, and does not depend on the order of calls *)
Stable == [][\A c \in DOMAIN answers : answers'[c] = answers[c]]_vars
Pure == \A c \in DOMAIN answers : answers[c] = F(c)
=============================================================================
