----------------------------- MODULE Concurrent -----------------------------
(* Calls made from several threads (C21).  A call begins and ends; between the *)
(* two, other threads may begin and end others.  Nothing is shared but what    *)
(* the calls only read, so the answer is still a function of the call alone,   *)
(* and a call can always end whatever the others are doing.                    *)
(*   pending   the call each thread is waiting for                             *)
(*   history   the calls ended so far, in that order                           *)
(*   answers   call -> answer, as in Session                                   *)
EXTENDS Integers, Sequences

CONSTANTS Threads, Calls, Answers, F(_), Idle

VARIABLES pending, history, answers
vars == <<pending, history, answers>>

Init == pending = [t \in Threads |-> Idle] /\ history = <<>> /\ answers = [c \in {} |-> 0]
Begin(t, c) ==
  /\ pending[t] = Idle
  /\ pending' = [pending EXCEPT ![t] = c]
  /\ UNCHANGED <<history, answers>>
End(t, a) ==
  /\ pending[t] # Idle
  /\ a = F(pending[t])
  /\ history' = Append(history, pending[t])
  /\ answers' = [x \in DOMAIN answers \cup {pending[t]} |-> IF x = pending[t] THEN a ELSE answers[x]]
  /\ pending' = [pending EXCEPT ![t] = Idle]
Next == \E t \in Threads : (\E c \in Calls : Begin(t, c)) \/ (\E a \in Answers : End(t, a))
Fairness == \A t \in Threads : WF_vars(\E a \in Answers : End(t, a))
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ Fairness

TypeOK == /\ pending \in [Threads -> Calls \cup {Idle}]
          /\ DOMAIN answers \subseteq Calls
Pure == \A c \in DOMAIN answers : answers[c] = F(c)
(* what the calls answer is what they would answer one after the other, in the order in which they end *)
Alone == INSTANCE Session
Serial == Alone!Spec
(* no call waits for ever, whatever the others do *)
Ends == \A t \in Threads : (pending[t] # Idle) ~> (pending[t] = Idle)
=============================================================================
