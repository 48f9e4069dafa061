----------------------------- MODULE ConcTrace ------------------------------
(* Conformance with Concurrent: every begin and every end recorded must be a   *)
(* step, F being given by the answers of the calls made alone.                 *)
EXTENDS TraceBase

VARIABLES l,       \* event
          k,       \* entry of its log
          pending, history, answers, \* the calls under way and ended
          bad
vars == <<l, k, pending, history, answers, bad>>

(* every event is a process of its own: its calls are <<event, number>> *)
F(ec) == Trace[ec[1]].calls[ec[2]].answer
None == <<0, 0>>
Live == {e \in 1..Len(Trace) : ~Crashed(e)}
TheCalls == UNION {{<<e, i>> : i \in 1..Len(Trace[e].calls)} : e \in Live}
TheAnswers == UNION {{Trace[e].log[i].answer : i \in 1..Len(Trace[e].log)} : e \in Live}
TheThreads == 1..16
C == INSTANCE Concurrent WITH Threads <- TheThreads, Calls <- TheCalls, Answers <- TheAnswers, F <- F, Idle <- None

N(e) == IF Crashed(e) THEN 0 ELSE Len(Trace[e].log)
Init == l = 1 /\ k = 1 /\ bad = {} /\ C!Init
At == l <= Len(Trace) /\ k <= N(l)
Entry == Trace[l].log[k]
Begin ==
  /\ At /\ Entry.op = "begin"
  /\ C!Begin(Entry.thread, <<l, Entry.call>>)
  /\ k' = k + 1 /\ UNCHANGED <<l, bad>>
End ==
  /\ At /\ Entry.op = "end"
  /\ pending[Entry.thread] = <<l, Entry.call>>
  /\ C!End(Entry.thread, Entry.answer)
  /\ k' = k + 1 /\ UNCHANGED <<l, bad>>
(* a call that ends otherwise than it should *)
Stray ==
  /\ At /\ Entry.op = "end"
  /\ pending[Entry.thread] = <<l, Entry.call>>
  /\ Entry.answer # F(<<l, Entry.call>>)
  /\ bad' = bad \cup {"answered differently while others were made: " \o Trace[l].calls[Entry.call].call}
  /\ pending' = [pending EXCEPT ![Entry.thread] = None]
  /\ k' = k + 1 /\ UNCHANGED <<l, history, answers>>
Judge ==
  /\ l <= Len(Trace) /\ k > N(l)
  /\ Report(l, bad \cup (IF Crashed(l) THEN {"crash"} ELSE {})
               \cup Unless(\A t \in TheThreads : pending[t] = None, "a call never ends"))
  /\ l' = l + 1 /\ k' = 1 /\ bad' = {}
  /\ pending' = [t \in TheThreads |-> None] /\ history' = <<>> /\ answers' = [x \in {} |-> 0]
RECURSIVE Sum(_)
Sum(e) == IF e = 0 THEN 0 ELSE N(e) + Sum(e - 1)
Finish ==
  /\ l = Len(Trace) + 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace), steps |-> Sum(Len(Trace))]))
  /\ l' = l + 1 /\ UNCHANGED <<k, pending, history, answers, bad>>
Next == Begin \/ End \/ Stray \/ Judge \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Trace) + 2)
Pure == C!Pure
=============================================================================
