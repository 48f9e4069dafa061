------------------------------- MODULE ComTrace ------------------------------
(* Conformance of computeCOMTraj / computeCOMTrajFixedSize with ComTraj: every *)
(* recorded call is replayed against the model, as the abstract planner of     *)
(* Planner.tla would walk through it:                                          *)
(*   Call     the answer (trajectory, failure, exception, crash) is received   *)
(*   Walk(k)  the trajectory is at sample k of the schedule; all the contact   *)
(*            phases in force there must accept it                             *)
(*   Span(i)  the trajectory crosses contact phase i (continuous formulation): *)
(*            the phase must accept every instant of it                        *)
(*   Judge    what the answer as a whole must satisfy: boundary conditions,    *)
(*            optimality, feasibility, consistency of the result               *)
(* PROP selects which property is being decided.                               *)
EXTENDS ComTraj, TraceBase

VARIABLES l,      \* event
          stage,  \* "call" | "walk" | "span" | "judge" | "done"
          k,      \* sample or phase about to be visited
          bad     \* reasons why event l is not a behaviour of the model
vars == <<l, stage, k, bad>>

TolDyn == RQ(1, 10000000)
TolRel == RQ(1, 100000000)
Micro == RQ(1, 1000000)
Nano == RQ(1, 1000000000)

Answered(e) == ~Crashed(e) /\ Trace[e].r.outcome = "ok"
Succ(e) == Answered(e) /\ Trace[e].r.success
E == [e \in 1..Len(Trace) |->
  IF Crashed(e) THEN <<>>
  ELSE LET Q == ParseProblem(Trace[e].p)
           r == Trace[e].r
       IN  IF ~Succ(e) THEN [Q |-> Q, T |-> Dur(Q)]
           ELSE LET P == TLCEval(R(r.curve.wps))
                    T == Dur(Q)
                IN  [Q |-> Q, T |-> T, P |-> P, x |-> TLCEval(R(r.x)),
                     D2 |-> IF Len(P) > 2 THEN BDerivK(P, T, 2) ELSE P,
                     \* the curve whose free point is zero: the constant part of the constraints.  The
                     \* linear solver is exact up to 1e-7 times the right hand side of a constraint.
                     P0 |-> IF Q.solver = "glpk" THEN Curve(Q, VZero(3)) ELSE <<VZero(3)>>,
                     D0 |-> IF Q.solver = "glpk" THEN Curve2(Q, VZero(3)) ELSE <<VZero(3)>>,
                     S |-> Sched(Q)]]
(* a curve the walk can be made on *)
Walkable(e) ==
  /\ Succ(e)
  /\ Len(E[e].P) > 2
  /\ \A i \in 1..Len(E[e].P) : Len(E[e].P[i]) = 3 /\ \A j \in 1..3 : RIsNum(E[e].P[i][j])

WalkProps == {"C02", "C03", "C04"}
-----------------------------------------------------------------------------
(* one sample *)
AtSample(e, i) ==
  LET Q == E[e].Q
      S == E[e].S
      u == RMin(R(1), RDiv(S[i][1], E[e].T))
      c == BEval(E[e].P, u)
      dd == BEval(E[e].D2, u)
      phs == PhasesAt(S, i)
      c0 == BEval(E[e].P0, u)
      d0 == BEval(E[e].D0, u)
      slack(v) == IF Q.solver = "glpk" THEN VMaxAbs(v) ELSE R(0)
  IN  CASE Prop = "C02" ->
             UNION {Unless(StableAt(Q.contacts[p], Wrench(c, dd, Q.contacts[p].g), Margin(Q), TolDyn,
                                    slack(Wrench(c0, d0, Q.contacts[p].g))),
                           "dynamics violated at sample " \o ToString(i) \o " phase " \o ToString(p)) : p \in phs}
        [] Prop = "C03" ->
             UNION {Unless(ReachAt(Q.contacts[p], c, TolDyn, slack(c0)),
                           "kinematics violated at sample " \o ToString(i) \o " phase " \o ToString(p)) : p \in phs}
        [] Prop = "C04" ->
             Unless(AccAt(dd, Q.accMax, TolDyn, slack(d0)), "acceleration bound violated at sample " \o ToString(i))
        [] OTHER -> {}

-----------------------------------------------------------------------------
(* one phase, at every instant.  V is a curve (sequence of control points) of  *)
(* vectors that must stay >= lo, up to tol: decided by subdivision, the curve  *)
(* being inside the convex hull of its control points.                         *)
AllGe(V, lo, tol) == \A i \in 1..Len(V) : RLe(RSub(lo, tol), VMin(V[i]))
RECURSIVE StaysGe(_, _, _, _)
StaysGe(V, lo, tol, depth) ==
  IF AllGe(V, lo, tol) THEN "holds"
  ELSE IF ~RLe(RSub(lo, tol), VMin(V[1])) \/ ~RLe(RSub(lo, tol), VMin(V[Len(V)])) THEN "broken"
  ELSE IF depth = 0 THEN "unknown"
  ELSE LET h == RQ(1, 2)
           a == StaysGe(BLeft(V, h), lo, tol, depth - 1)
       IN  IF a = "broken" THEN a
           ELSE LET b == StaysGe(BRight(V, h), lo, tol, depth - 1)
                IN  IF b = "broken" \/ a = "holds" THEN b ELSE a
InPhase(e, i) ==
  LET Q == E[e].Q
      T == E[e].T
      K == Q.contacts[i]
      st == Starts(Q.Ts)
      u0 == RDiv(st[i], T)
      u1 == IF i = Len(Q.Ts) THEN R(1) ELSE RDiv(st[i + 1], T)
      cs == BSplit(E[e].P, u0, u1)
      ds == BSplit(E[e].D2, u0, u1)
      W == WCurve(Q, cs, ds, K.g)
      HW == TLCEval([j \in 1..Len(W) |-> MV(K.H, W[j])])
      scale == RAdd(R(1), VMaxAbs([j \in 1..Len(W) |-> VMaxAbs(W[j])]))
      extra(v) == IF Q.solver = "glpk" THEN VMaxAbs([j \in 1..Len(v) |-> VMaxAbs(v[j])]) ELSE R(0)
      c0 == IF Q.solver = "glpk" THEN BSplit(E[e].P0, u0, u1) ELSE <<>>
      d0 == IF Q.solver = "glpk" THEN BSplit(E[e].D0, u0, u1) ELSE <<>>
      w0 == IF Q.solver = "glpk" THEN extra(WCurve(Q, c0, d0, K.g)) ELSE R(0)
      KC == TLCEval([j \in 1..Len(cs) |-> VSub(K.kin, MV(K.Kin, cs[j]))])
      AC == TLCEval([j \in 1..Len(ds) |->
              [d \in 1..3 |-> RSub(Q.accMax, ds[j][d])] \o [d \in 1..3 |-> RAdd(Q.accMax, ds[j][d])]])
      tol == TolDyn
      dyn == StaysGe(HW, Margin(Q), RMul(tol, RAdd(scale, w0)), 5)
      kin == IF Len(K.kin) = 0 THEN "holds" ELSE StaysGe(KC, R(0), RMul(tol, RAdd(RAdd(R(1), extra(c0)), VMaxAbs(K.kin))), 5)
      acc == StaysGe(AC, R(0), RMul(tol, RAdd(RAdd(R(1), extra(d0)), Q.accMax)), 5)
  IN  UNION {Unless(dyn # "broken", "dynamics violated inside phase " \o ToString(i)),
             Unless(kin # "broken", "kinematics violated inside phase " \o ToString(i)),
             Unless(~Q.accOn \/ acc # "broken", "acceleration bound violated inside phase " \o ToString(i))}

-----------------------------------------------------------------------------
(* the answer as a whole *)
Close(a, b, scale) == RLe(VMaxAbs(VSub(a, b)), RMul(TolRel, RAdd(R(1), scale)))
CloseS(a, b, scale) == RLe(RAbs(RSub(a, b)), RMul(TolRel, RAdd(R(1), scale)))

Boundary(e) ==
  LET Q == E[e].Q
      P == E[e].P
      T == E[e].T
      c == Trace[e].r.curve
      ini(o) == Close(BDerivAt(P, T, o, R(0)), InitVal(Q.bc, o), VMaxAbs(InitVal(Q.bc, o)))
      fin(o) == Close(BDerivAt(P, T, o, R(1)), EndVal(Q.bc, o), VMaxAbs(EndVal(Q.bc, o)))
  IN  UNION { Unless(REq(R(c.tmin), R(0)), "the curve does not start at time 0"),
              Unless(CloseS(R(c.tmax), T, T), "the curve does not last as long as the phases"),
              Unless(CloseS(R(c.mult), R(1), R(1)), "the curve is scaled") }
      \cup UNION {Unless(ini(o), "initial value of derivative " \o ToString(o)) : o \in InitOrders(Q.flag)}
      \cup UNION {Unless(fin(o), "final value of derivative " \o ToString(o)) : o \in EndOrders(Q.flag)}
      \cup UNION { LET ev == c.evals[i]
                       u == RMin(R(1), RDiv(R(ev.t), R(c.tmax)))
                       sc == VMaxAbs([j \in 1..Len(P) |-> VMaxAbs(P[j])])
                       s2 == RMul(RMul(R(Deg(P) * Deg(P)), sc), RDiv(R(1), RMul(T, T)))
                   IN  Unless(Close(R(ev.c), BEval(P, u), sc) /\ Close(R(ev.dc), BDerivAt(P, T, 1, u), RAdd(sc, s2))
                              /\ Close(R(ev.ddc), BEval(E[e].D2, u), RAdd(sc, s2)),
                              "the curve does not evaluate to its control points")
                   : i \in 1..Len(c.evals) }

Consistent(e) ==
  LET Q == E[e].Q
      r == Trace[e].r
      P == E[e].P
      T == E[e].T
      mc == TLCEval(ControlPoints(Q.flag, Q.bc, T, <<E[e].x>>))
      co == TLCEval(CostOf(Q))
      v == CostAt(Q, co, E[e].x)
      sc == VMaxAbs([j \in 1..Len(P) |-> VMaxAbs(P[j])])
      d2 == VMaxAbs([j \in 1..Len(E[e].D2) |-> VMaxAbs(E[e].D2[j])])
  IN  UNION { Unless(Len(r.x) = 3, "x is not a point"),
              Unless(RIsNum(R(r.cost)), "the cost is not a number"),
              Unless(Len(mc) = Len(P), "degree of the curve"),
              Unless(Len(mc) # Len(P) \/ \A i \in 1..Len(mc) : Close(P[i], mc[i], sc),
                     "the curve is not the curve of x"),
              \* the optimiser works on force variables too, with a regularisation of 1e-6
              Unless((Q.rep = "force" /\ Q.solver = "qp")
                     \/ CloseS(R(r.cost), v, RAdd(RAbs(v), RAdd(RMul(co.h, VDot(E[e].x, E[e].x)), RAbs(VDot(co.g, E[e].x))))),
                     "the cost is not the objective at x"),
              Unless(Close(R(r.dc1), BDerivAt(P, T, 1, R(1)), RAdd(sc, d2)), "dc1 is not the final velocity"),
              Unless(Close(R(r.ddc1), BEval(E[e].D2, R(1)), d2), "ddc1 is not the final acceleration"),
              Unless(\A i \in 1..Len(r.dL.wps) : REq(VMaxAbs(R(r.dL.wps[i])), R(0)), "dL is not zero"),
              Unless(CloseS(R(r.dL.tmax), T, T), "dL does not last as long as the motion") }

RowA(rows) == TLCEval([i \in 1..Len(rows) |-> rows[i].a])
RowB(rows) == TLCEval([i \in 1..Len(rows) |-> rows[i].b])
(* the rows, each at least a relative eps away *)
Tightened(A, b, eps) == TLCEval([i \in 1..Len(b) |-> RSub(b[i], RMul(eps, RAdd(R(1), VMaxAbs(A[i]))))])
HessOf(co) == TLCEval([i \in 1..3 |-> VScale(IF REq(co.h, R(0)) THEN R(1) ELSE co.h, VUnit(3, i))])
Minimise(Q, co, A, b) ==
  IF Q.solver = "glpk" THEN LPSearch(co.g, A, b) ELSE QPSearch(HessOf(co), co.g, A, b)

NotFeasible(e) == \* a failure was reported: no point satisfies the rows robustly
  LET Q == E[e].Q
      rows == TLCEval(Rows(Q))
      A == RowA(rows)
      b == TLCEval(Tightened(A, RowB(rows), Micro))
      b2 == Tightened(A, RowB(rows), RMul(RQ(2, 1), Micro))
      o == QPSearch(HessOf([h |-> R(1)]), VScale(RQ(-1, 2), VAdd(Q.bc.c0, Q.bc.c1)), A, b2)
  IN  IF o.status = "optimal" /\ IsFeasible(o.x, A, b, R(0))
         \* ... and it is a point one would find: not at the end of the world
         /\ RLe(VMaxAbs(o.x), R(10000))
      THEN IF Q.solver = "glpk" /\ LET p == LPSearch(TLCEval(CostOf(Q)).g, A, b) IN p.status # "optimal"
           THEN {"NOTE unbounded"} ELSE {"a problem with a solution is reported infeasible"}
      ELSE IF o.status = "infeasible" THEN {} ELSE {"NOTE undecided"}

Optimal(e) == \* no feasible point is cheaper
  LET Q == E[e].Q
      rows == TLCEval(Rows(Q))
      A == RowA(rows)
      b == Tightened(A, RowB(rows), Nano)
      co == TLCEval(CostOf(Q))
      o == Minimise(Q, co, A, b)
      cx == CostAt(Q, co, E[e].x)
      cb == CostAt(Q, co, o.x)
      sc == RAdd(RAdd(R(1), RAbs(cb)), RAdd(RMul(co.h, VDot(E[e].x, E[e].x)), RAbs(VDot(co.g, E[e].x))))
      tol == IF Q.rep = "force" THEN RQ(1, 1000) ELSE Micro
  IN  \* named deviation: with contact forces among the variables, the QP also
      \* minimises 1e-6/2 |forces|^2, so that its Hessian is definite
      IF Q.rep = "force" /\ Q.solver = "qp" THEN {}
      ELSE IF o.status = "optimal" /\ IsFeasible(o.x, A, RowB(rows), R(0))
      THEN Unless(RLe(cx, RAdd(cb, RMul(tol, sc))), "a cheaper trajectory satisfies all the constraints")
      ELSE IF o.status = "infeasible" THEN {"NOTE infeasible"} ELSE {"NOTE undecided"}

Judge(e) ==
  CASE Crashed(e) -> {"crash"}
    [] Prop = "C01" -> IF Succ(e) THEN Boundary(e) ELSE {}
    [] Prop = "C06" ->
         IF ~Answered(e) THEN {"exception on a well-formed problem"}
         ELSE IF Succ(e) THEN {} ELSE NotFeasible(e)
    [] Prop = "C07" -> IF Succ(e) THEN Optimal(e) ELSE {}
    [] Prop = "C08" -> IF Succ(e) THEN Consistent(e) ELSE {}
    [] Prop = "C17" ->
         Unless(Trace[e].r.pure, "the problem given was modified")
         \cup Unless(Trace[e].r.repeat, "the same problem was answered differently")
    [] OTHER -> {}

-----------------------------------------------------------------------------
Init == l = 1 /\ stage = "call" /\ k = 1 /\ bad = {}

Call ==
  /\ stage = "call" /\ l <= Len(Trace)
  /\ stage' = IF ~Crashed(l) /\ Walkable(l) /\ Prop \in WalkProps /\ E[l].Q.mode # "cont"
                 /\ (Prop = "C04" => E[l].Q.accOn) THEN "walk"
              ELSE IF ~Crashed(l) /\ Walkable(l) /\ Prop = "C05" /\ E[l].Q.mode = "cont" THEN "span"
              ELSE "judge"
  /\ k' = 1
  /\ bad' = IF Succ(l) /\ ~Walkable(l) THEN {"success without a trajectory"} ELSE {}
  /\ UNCHANGED l
Walk ==
  /\ stage = "walk"
  /\ bad' = bad \cup AtSample(l, k)
  /\ IF k < Len(E[l].S) THEN k' = k + 1 /\ stage' = stage ELSE k' = 1 /\ stage' = "judge"
  /\ UNCHANGED l
Span ==
  /\ stage = "span"
  /\ bad' = bad \cup InPhase(l, k)
  /\ IF k < Len(E[l].Q.Ts) THEN k' = k + 1 /\ stage' = stage ELSE k' = 1 /\ stage' = "judge"
  /\ UNCHANGED l
Notes(s) == {r \in s : Len(r) > 4 /\ SubSeq(r, 1, 4) = "NOTE"}
JudgeStep ==
  /\ stage = "judge"
  /\ LET all == bad \cup (IF Succ(l) /\ ~Walkable(l) THEN {} ELSE Judge(l))
     IN  /\ Report(l, all \ Notes(all))
         /\ IF Notes(all) = {} THEN TRUE ELSE Note(l, Notes(all))
  /\ bad' = {} /\ stage' = "call" /\ k' = 1 /\ l' = l + 1
Finish ==
  /\ stage = "call" /\ l = Len(Trace) + 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace),
        success |-> Cardinality({e \in 1..Len(Trace) : Succ(e)}),
        failure |-> Cardinality({e \in 1..Len(Trace) : Answered(e) /\ ~Succ(e)})]))
  /\ stage' = "done" /\ UNCHANGED <<l, k, bad>>
Next == Call \/ Walk \/ Span \/ JudgeStep \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Trace) + 1) /\ stage \in {"call", "walk", "span", "judge", "done"}
=============================================================================
