------------------------------ MODULE Schedule ------------------------------
(* Where in time the constraints of a discretised problem are imposed.  Ts is  *)
(* the sequence of phase durations; a schedule is a sequence of <<t, phase>>.  *)
EXTENDS Rational, TLC

RECURSIVE Starts_(_, _, _)
Starts_(Ts, i, acc) ==
  IF i > Len(Ts) THEN acc ELSE Starts_(Ts, i + 1, Append(acc, RAdd(acc[i], Ts[i])))
(* instants at which the phases start, followed by the final instant *)
Starts(Ts) == TLCEval(Starts_(Ts, 1, <<R(0)>>))
Total(Ts) == VSum(Ts)

(* p points per phase, the last of which is the end of the phase, after t = 0 *)
FixedSchedule(Ts, p) ==
  LET st == Starts(Ts)
  IN  TLCEval(<< <<R(0), 1>> >> \o
        FlattenSeqs([i \in 1..Len(Ts) |-> [j \in 1..p |->
           <<RAdd(st[i], RMul(RQ(j, p), Ts[i])), i>>]]))

(* every dt from the start of each phase, and its end *)
StepCount(d, dt) == \* number of k >= 0 with k * dt < d
  LET q == RDiv(d, dt)
      f == RFloorInt(q)
  IN  IF REq(R(f), q) THEN f ELSE f + 1
StepSchedule(Ts, dt) ==
  LET st == Starts(Ts)
  IN  TLCEval(FlattenSeqs([i \in 1..Len(Ts) |->
        [k \in 1..StepCount(Ts[i], dt) |-> <<RAdd(st[i], RMul(R(k - 1), dt)), i>>]
        \o << <<st[i + 1], i>> >>]))

(* the phases whose constraints apply at sample k of schedule S *)
PhasesAt(S, k) ==
  IF k < Len(S) /\ S[k + 1][2] # S[k][2] THEN {S[k][2], S[k + 1][2]} ELSE {S[k][2]}
=============================================================================
