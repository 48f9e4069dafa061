-------------------------------- MODULE QPTrace -------------------------------
(* Conformance of the active-set solver with QP.  A recorded event holds one   *)
(* problem and the answers of eight uses of the solver:                         *)
(*   r       a fresh solver                                                    *)
(*   again   a solver that has solved other problems before, another x          *)
(*   sparse  the Hessian given as a sparse matrix                              *)
(*   inv     the factor of the inverse of the Hessian given by the caller      *)
(*   mixed   the solver of `sparse', given the matrix itself afterwards        *)
(*   sinv    the factor given, and a sparse matrix                             *)
(*   capped, scapped  few iterations allowed                                   *)
(* Each answer is one step of the trace.                                       *)
EXTENDS QP, TraceBase

VARIABLES l, k, bad
vars == <<l, k, bad>>
Uses == <<"r", "again", "sparse", "mixed", "inv", "sinv", "capped", "scapped">>
Tol == RQ(1, 10000000)
KTol == RQ(1, 1000000)

Pb == [e \in 1..Len(Trace) |->
  IF Crashed(e) THEN <<>>
  ELSE LET t == Trace[e]
       IN  [H |-> TLCEval(R(t.H)), g |-> TLCEval(R(t.g)), CE |-> TLCEval(R(t.CE)), ce |-> TLCEval(R(t.ce)),
            CI |-> TLCEval(R(t.CI)), ci |-> TLCEval(R(t.ci)), wit |-> TLCEval(R(t.wit)),
            n |-> Len(t.g)]]
(* the same with A x <= b *)
Dm(e) == Pb[e].CE
dm(e) == VNeg(Pb[e].ce)
Am(e) == TLCEval([i \in 1..Len(Pb[e].CI) |-> VNeg(Pb[e].CI[i])])

OkPoint(e, a) ==
  LET p == Pb[e]
      x == R(a.x)
      ids == [j \in 1..Len(a.A) |-> a.A[j]]
      inRange == \A j \in 1..Len(ids) : ids[j] \in (-Len(p.ce))..(Len(p.ci) - 1)
      act == [j \in 1..Len(ids) |->
                IF ids[j] < 0 THEN [n |-> p.CE[-ids[j]], mu |-> R(a.u[j]), ineq |-> FALSE]
                ELSE [n |-> p.CI[ids[j] + 1], mu |-> R(a.u[j]), ineq |-> TRUE]]
      rhs(j) == IF ids[j] < 0 THEN p.ce[-ids[j]] ELSE p.ci[ids[j] + 1]
      sc == RAdd(SumAbs_(p.g, x, p.n), SumAbs_(MV(p.H, x), x, p.n))
  IN  IF Len(x) # p.n \/ \E i \in 1..Len(x) : ~RIsNum(x[i]) THEN {"the solution is not a point"}
      ELSE UNION {
        Unless(Satisfies(x, Dm(e), dm(e), Am(e), p.ci, Tol), "the solution violates a constraint"),
        IF ~inRange THEN {"the active set contains an unknown constraint"}
        ELSE UNION {
          Unless(Cardinality({ids[j] : j \in 1..Len(ids)}) = Len(ids), "a constraint is twice in the active set"),
          Unless(\A j \in 1..Len(p.ce) : -j \in {ids[i] : i \in 1..Len(ids)}, "an equality is not in the active set"),
          Unless(\A j \in 1..Len(ids) : RLe(RAbs(RAdd(VDot(act[j].n, x), rhs(j))), RowTol(act[j].n, x, rhs(j), KTol)),
                 "an active constraint is not tight"),
          Unless(SignsOk(act, KTol), "negative multiplier"),
          Unless(Stationary(x, p.H, p.g, act, KTol), "the solution is not optimal") },
        Unless(RLe(RAbs(RSub(R(a.f), QuadCost(p.H, p.g, x))), RMul(KTol, RAdd(sc, RMul(RQ(1, 10000), RAdd(R(1), NormInf(p.g)))))),
               "the objective value is not that of the solution") }

Refused(e, a) == \* not solved: there must be no solution
  LET p == Pb[e]
      f == Feasible(p.n, Dm(e), dm(e), Am(e), p.ci, p.wit, RQ(1, 100000))
  IN  IF f = "yes" THEN {"a problem with a solution is not solved (status " \o ToString(a.status) \o ")"}
      ELSE IF f = "no" THEN {} ELSE {"NOTE undecided"}

Same(a, b) == \* two answers to the same question
  /\ a.status = b.status
  /\ a.status = 0 => RLe(VMaxAbs(VSub(R(a.x), R(b.x))), RMul(Tol, RAdd(R(1), VMaxAbs(R(b.x)))))

AnswerOk(e, use) ==
  LET a == Trace[e][use]
      why == IF a.status = 0 THEN OkPoint(e, a)
             ELSE IF use \in {"capped", "scapped"} /\ a.status = 3 THEN {}
             ELSE Refused(e, a)
      alt == IF use \in {"again", "mixed"} THEN Unless(Same(a, Trace[e].r), "another answer from a solver that was used before") ELSE {}
  IN  {use \o ": " \o x : x \in {y \in why \cup alt : SubSeq(y, 1, 4) # "NOTE"}}
      \cup {y \in why : SubSeq(y, 1, 4) = "NOTE"}
Notes(s) == {r \in s : SubSeq(r, 1, 4) = "NOTE"}

Init == l = 1 /\ k = 1 /\ bad = {}
Step ==
  /\ l <= Len(Trace)
  /\ IF Crashed(l)
     THEN Report(l, {"crash"}) /\ l' = l + 1 /\ k' = 1 /\ bad' = {}
     ELSE LET all == bad \cup AnswerOk(l, Uses[k])
          IN  IF k < Len(Uses) THEN k' = k + 1 /\ bad' = all /\ l' = l
              ELSE /\ Report(l, all \ Notes(all))
                   /\ IF Notes(all) = {} THEN TRUE ELSE Note(l, Notes(all))
                   /\ l' = l + 1 /\ k' = 1 /\ bad' = {}
Finish ==
  /\ l = Len(Trace) + 1 /\ k = 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace),
        success |-> Cardinality({e \in 1..Len(Trace) : ~Crashed(e) /\ Trace[e].r.status = 0}),
        failure |-> Cardinality({e \in 1..Len(Trace) : ~Crashed(e) /\ Trace[e].r.status # 0})]))
  /\ k' = 2 /\ UNCHANGED <<l, bad>>
Next == Step \/ Finish
TypeOK == l \in 1..(Len(Trace) + 1) /\ k \in 1..Len(Uses)
=============================================================================
