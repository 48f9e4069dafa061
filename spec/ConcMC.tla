------------------------------- MODULE ConcMC -------------------------------
(* How a library keeps the promise of Concurrent: a call copies what it is     *)
(* asked into a workspace, computes there step by step, and answers from       *)
(* there.  With a workspace for each call every interleaving refines           *)
(* Concurrent.  (With one workspace for all, SharedWorkspace = TRUE, TLC gives *)
(* the interleaving that does not.)                                            *)
EXTENDS Integers, Sequences, IOUtils

CONSTANT SharedWorkspace
Thorough == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER # "quick"
Threads == IF Thorough THEN 1..3 ELSE 1..2
Depth == IF Thorough THEN 5 ELSE 4 \* calls begun
Calls == 1..3
Steps == 2      \* of the computation, after the copy
Answers == {6, 9, 12}
Idle == 0
G(c) == 3 * c + 3

VARIABLES pc, ws, asked, begun, history, answers
vars == <<pc, ws, asked, begun, history, answers>>
Slot(t) == IF SharedWorkspace THEN 1 ELSE t
pending == asked
C == INSTANCE Concurrent WITH F <- G
Init ==
  /\ pc = [t \in Threads |-> "idle"] /\ ws = [t \in Threads |-> <<0, 0>>]
  /\ asked = [t \in Threads |-> Idle] /\ begun = 0
  /\ history = <<>> /\ answers = [c \in {} |-> 0]
Enter(t) == \E c \in Calls :
  /\ pc[t] = "idle" /\ begun < Depth
  /\ pc' = [pc EXCEPT ![t] = "copy"] /\ asked' = [asked EXCEPT ![t] = c] /\ begun' = begun + 1
  /\ UNCHANGED <<ws, history, answers>>
Copy(t) ==
  /\ pc[t] = "copy"
  /\ ws' = [ws EXCEPT ![Slot(t)] = <<asked[t], 0>>] /\ pc' = [pc EXCEPT ![t] = "work"]
  /\ UNCHANGED <<asked, begun, history, answers>>
(* x is turned into 3x + 3, one unit of x at a time as it were *)
Work(t) ==
  /\ pc[t] = "work"
  /\ LET w == ws[Slot(t)]
     IN  IF w[1] > 0 THEN ws' = [ws EXCEPT ![Slot(t)] = <<w[1] - 1, w[2] + 3>>] /\ UNCHANGED pc
         ELSE UNCHANGED ws /\ pc' = [pc EXCEPT ![t] = "answer"]
  /\ UNCHANGED <<asked, begun, history, answers>>
Answer(t) ==
  /\ pc[t] = "answer"
  /\ LET a == ws[Slot(t)][2] + 3
     IN  /\ history' = Append(history, asked[t])
         /\ answers' = [x \in DOMAIN answers \cup {asked[t]} |-> IF x = asked[t] THEN a ELSE answers[x]]
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ asked' = [asked EXCEPT ![t] = Idle]
  /\ UNCHANGED <<ws, begun>>
Inside(t) == Copy(t) \/ Work(t) \/ Answer(t)
Next == \E t \in Threads : Enter(t) \/ Inside(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Inside(t))
Types == C!TypeOK
Pure == C!Pure
Refines == C!Spec
Serial == C!Serial
Ends == C!Ends
=============================================================================
