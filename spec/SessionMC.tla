------------------------------- MODULE SessionMC ----------------------------
(* Session on a small scale: all histories of up to Depth calls, two of    *)
(* which have the same answer.                                                 *)
EXTENDS Integers, Sequences, IOUtils

Depth == IF "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER # "quick" THEN 6 ELSE 4
TheCalls == 1..4
VARIABLES history, answers
vars == <<history, answers>>
G(c) == <<"a", "b", "a", "c">>[c]
S == INSTANCE Session WITH Calls <- TheCalls, Answers <- {"a", "b", "c"}, F <- G
Init == S!Init
Next == Len(history) < Depth /\ S!Next
Spec == Init /\ [][Next]_vars
Types == S!TypeOK
Pure == S!Pure
(* nothing is learnt by asking again *)
Again == \A i, j \in 1..Len(history) : history[i] = history[j] => answers[history[i]] = answers[history[j]]
Known == DOMAIN answers = {history[i] : i \in 1..Len(history)}
Stays == \A c \in DOMAIN answers : c \in DOMAIN answers' /\ answers'[c] = answers[c]
Stable == [][Stays]_vars
=============================================================================
