------------------------------ MODULE HistTrace -----------------------------
(* Conformance with Session: F is given by the answers of fresh processes, and *)
(* every call of a recorded history must be a step Ask of the session.         *)
EXTENDS TraceBase

VARIABLES l,       \* event
          k,       \* call of the history of event l
          history, answers, \* the session
          bad
vars == <<l, k, history, answers, bad>>

(* a call of the session of event e is <<e, call>>: every event is a process of its own *)
F(ec) ==
  LET e == ec[1]  call == ec[2]
      i == CHOOSE i \in 1..Len(Trace[e].fresh) : Trace[e].fresh[i].call = call
  IN  Trace[e].fresh[i].answer
Live == {e \in 1..Len(Trace) : ~Crashed(e)}
TheCalls == UNION {{<<e, Trace[e].fresh[i].call>> : i \in 1..Len(Trace[e].fresh)} : e \in Live}
TheAnswers == UNION {{Trace[e].history[i].answer : i \in 1..Len(Trace[e].history)} : e \in Live}
S == INSTANCE Session WITH Calls <- TheCalls, Answers <- TheAnswers, F <- F

N(e) == IF Crashed(e) THEN 0 ELSE Len(Trace[e].history)
Init == l = 1 /\ k = 1 /\ bad = {} /\ S!Init
(* the recorded call is a step of the session ... *)
Step ==
  /\ l <= Len(Trace) /\ k <= N(l)
  /\ LET h == Trace[l].history[k] IN S!Ask(<<l, h.call>>, h.answer)
  /\ k' = k + 1 /\ UNCHANGED <<l, bad>>
(* ... or it is not *)
Stray ==
  /\ l <= Len(Trace) /\ k <= N(l)
  /\ LET h == Trace[l].history[k]
     IN  /\ h.answer # F(<<l, h.call>>)
         /\ bad' = bad \cup {"call " \o ToString(k) \o " is answered differently in a fresh process: " \o h.call}
  /\ k' = k + 1 /\ UNCHANGED <<l, history, answers>>
Crash(e) == IF Crashed(e) THEN {"crash"}
            ELSE UNION {Unless(Trace[e].fresh[i].answer # "crash", "crash in a fresh process") : i \in 1..Len(Trace[e].fresh)}
Judge ==
  /\ l <= Len(Trace) /\ k > N(l)
  /\ Report(l, bad \cup Crash(l))
  /\ l' = l + 1 /\ k' = 1 /\ bad' = {}
  /\ history' = <<>> /\ answers' = [x \in {} |-> 0]
RECURSIVE Sum(_)
Sum(e) == IF e = 0 THEN 0 ELSE N(e) + Sum(e - 1)
Finish ==
  /\ l = Len(Trace) + 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace), calls |-> Sum(Len(Trace))]))
  /\ l' = l + 1 /\ UNCHANGED <<k, history, answers, bad>>
Next == Step \/ Stray \/ Judge \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Trace) + 2)
Pure == S!Pure
=============================================================================
