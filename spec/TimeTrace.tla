------------------------------- MODULE TimeTrace ------------------------------
(* Conformance of the time discretisations with Schedule.  The recorded        *)
(* sequences of <<instant, phase>> are read sample by sample by an automaton   *)
(* that knows where it is: phase p, j samples already seen in p.               *)
EXTENDS Schedule, TraceBase

VARIABLES l,    \* event
          w,    \* which of the two discretisations is being read
          i,    \* next sample
          p, j, \* phase, number of samples seen in it
          bad
vars == <<l, w, i, p, j, bad>>
Tol == RQ(1, 1000000000)
Near(a, b, s) == RLe(RAbs(RSub(a, b)), RMul(Tol, RAdd(s, RQ(1, 100))))

Which == <<"stepped", "fixed">>
Pb == [e \in 1..Len(Trace) |->
  IF Crashed(e) THEN <<>>
  ELSE LET Ts == TLCEval(R(Trace[e].Ts))
       IN  [Ts |-> Ts, st |-> Starts(Ts), T |-> Total(Ts), dt |-> R(Trace[e].dt), ppp |-> Trace[e].ppp]]
Seq_(e) == Trace[e][Which[w]]
Time(e, m) == R(Seq_(e)[m][1])
Phase(e, m) == Seq_(e)[m][2]

(* with a step: sample number j (from 0) of phase q is at start + j * dt, or   *)
(* at the end of the phase, after which the next phase begins                  *)
SteppedStep(e) ==
  LET b == Pb[e]
      q == Phase(e, i)
      t == Time(e, i)
      atEnd == REq(t, b.st[p + 1]) \/ Near(t, b.st[p + 1], b.T)
      inPhase == q = p
      enters == q = p + 1
      expected == RAdd(b.st[p], RMul(R(j), b.dt))
  IN  IF inPhase
      THEN UNION { Unless(atEnd \/ Near(t, expected, b.T), "a sample is not where the time step puts it"),
                   Unless(RLe(t, RAdd(b.st[p + 1], RMul(Tol, b.T))), "a sample after the end of its phase"),
                   \* the end comes last, when no other instant of the phase is left
                   Unless(~atEnd \/ RLe(b.st[p + 1], RAdd(expected, RMul(Tol, RAdd(R(1), b.T)))),
                          "the end of a phase is reached too early"),
                   Unless(i < Len(Seq_(e)) \/ atEnd, "the last sample is not the end of the motion"),
                   Unless(i < Len(Seq_(e)) \/ p = Len(b.Ts), "phases are missing") }
      ELSE IF enters
      THEN UNION { Unless(p < Len(b.Ts), "more phases than there are"),
                   Unless(p + 1 > Len(b.Ts) \/ Near(t, b.st[p + 1], b.T), "a phase does not begin at its first instant"),
                   Unless(i > 1 /\ Near(Time(e, i - 1), b.st[p + 1], b.T), "a phase is left before its end") }
      ELSE {"phases out of order"}
FixedStep(e) ==
  LET b == Pb[e]
      S == FixedSchedule(b.Ts, b.ppp)
  IN  IF i > Len(S) THEN {"too many samples"}
      ELSE UNION { Unless(Phase(e, i) = S[i][2], "sample attributed to the wrong phase"),
                   Unless(Near(Time(e, i), S[i][1], b.T), "a sample is not where equal spacing puts it"),
                   Unless(i < Len(Seq_(e)) \/ i = Len(S), "samples are missing") }

Init == l = 1 /\ w = 1 /\ i = 1 /\ p = 1 /\ j = 0 /\ bad = {}
NextEvent == l' = l + 1 /\ w' = 1 /\ i' = 1 /\ p' = 1 /\ j' = 0 /\ bad' = {}
Read ==
  /\ l <= Len(Trace) /\ ~Crashed(l) /\ w <= 2 /\ i <= Len(Seq_(l))
  /\ LET more == IF w = 1 THEN SteppedStep(l) ELSE FixedStep(l)
         q == Phase(l, i)
         jump == w = 1 /\ q = p + 1 /\ p < Len(Pb[l].Ts)
     IN  /\ bad' = bad \cup more
         /\ p' = IF jump THEN p + 1 ELSE p
         /\ j' = IF jump THEN 1 ELSE j + 1
         /\ i' = i + 1
  /\ UNCHANGED <<l, w>>
EndOfSequence ==
  /\ l <= Len(Trace) /\ ~Crashed(l) /\ w <= 2 /\ i > Len(Seq_(l))
  /\ LET none == Unless(Len(Seq_(l)) > 0, "no sample")
         nearly == Unless(Len(Seq_(l)) = 0 \/ Near(Time(l, Len(Seq_(l))), Pb[l].T, Pb[l].T), "the end of the motion is not sampled")
         \* rounding may leave one more sample a hair before the end of a phase
         ends == Unless(w = 2 \/ \A m \in 1..Len(Pb[l].Ts) :
                    LET at == {n \in 1..Len(Seq_(l)) : Phase(l, n) = m /\ Near(Time(l, n), Pb[l].st[m + 1], Pb[l].T)}
                    IN  Cardinality(at) \in {1, 2}, "the end of a phase is not sampled exactly")
         all == bad \cup none \cup nearly \cup ends
     IN  IF w = 2 THEN Report(l, all) /\ NextEvent
         ELSE w' = 2 /\ i' = 1 /\ p' = 1 /\ j' = 0 /\ bad' = all /\ UNCHANGED l
Crash == l <= Len(Trace) /\ Crashed(l) /\ Report(l, {"crash"}) /\ NextEvent
Finish ==
  /\ l = Len(Trace) + 1 /\ w = 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace)]))
  /\ w' = 3 /\ UNCHANGED <<l, i, p, j, bad>>
Next == Read \/ EndOfSequence \/ Crash \/ Finish
TypeOK == l \in 1..(Len(Trace) + 1) /\ p \in Nat /\ j \in Nat
=============================================================================
