------------------------------ MODULE ZeroTrace ------------------------------
(* Conformance of solve0step with ZeroStep: a behaviour follows each answered  *)
(* motion through the samples (or the whole interval) and then judges it.      *)
EXTENDS ZeroStep, TraceBase

VARIABLES l, k, bad
vars == <<l, k, bad>>
TolDyn == RQ(1, 10000000)
TolRel == RQ(1, 100000000)
Micro == RQ(1, 1000000)
Nano == RQ(1, 1000000000)

Succ(e) == ~Crashed(e) /\ Trace[e].r.outcome = "ok" /\ Trace[e].r.success
Dim(e) == IF Trace[e].p.useAng THEN 6 ELSE 3
WellFormed(e) == Succ(e) /\ Len(Trace[e].r.x) = Dim(e)
E == [e \in 1..Len(Trace) |->
  IF Crashed(e) THEN [ok |-> FALSE]
  ELSE LET p == Trace[e].p
           T == R(p.Ts[1])
           Q == [c0 |-> R(p.bc.c0), dc0 |-> R(p.bc.dc0), l0 |-> R(p.l0), T |-> T, ang |-> p.useAng,
                 K |-> ParseContact(p.contacts[1]), steps |-> ZSteps(T, R(p.dt))]
       IN  IF WellFormed(e) THEN [ok |-> TRUE, Q |-> Q, z |-> TLCEval(R(Trace[e].r.x)), D |-> TLCEval(Demand(Q, R(Trace[e].r.x)))]
           ELSE [ok |-> FALSE, Q |-> Q]]

MaxW(D) == VMaxAbs([i \in 1..Len(D) |-> VMaxAbs(D[i])])
RECURSIVE StaysGe(_, _, _, _)
AllGe(V, lo, tol) == \A i \in 1..Len(V) : RLe(RSub(lo, tol), VMin(V[i]))
StaysGe(V, lo, tol, depth) ==
  IF AllGe(V, lo, tol) THEN "holds"
  ELSE IF ~RLe(RSub(lo, tol), VMin(V[1])) \/ ~RLe(RSub(lo, tol), VMin(V[Len(V)])) THEN "broken"
  ELSE IF depth = 0 THEN "unknown"
  ELSE LET h == RQ(1, 2)
           a == StaysGe(BLeft(V, h), lo, tol, depth - 1)
       IN  IF a = "broken" THEN a
           ELSE LET b == StaysGe(BRight(V, h), lo, tol, depth - 1)
                IN  IF b = "broken" \/ a = "holds" THEN b ELSE a
At(e, i) == \* sample i, 1..steps+1
  LET Q == E[e].Q
      w == BEval(E[e].D, RQ(i - 1, Q.steps))
      hw == MV(Q.K.H, w)
  IN  Unless(\A r \in 1..Len(hw) : RLe(RNeg(RMul(TolDyn, RAdd(R(1), MaxW(E[e].D)))), hw[r]),
             "the contacts cannot provide the wrench at sample " \o ToString(i))
Everywhere(e) ==
  LET Q == E[e].Q
      HD == TLCEval([i \in 1..5 |-> MV(Q.K.H, E[e].D[i])])
  IN  Unless(StaysGe(HD, R(0), RMul(TolDyn, RAdd(R(1), MaxW(E[e].D))), 5) # "broken",
             "the contacts cannot provide the wrench at some instant")

Close(a, b, s) == Len(a) = Len(b) /\ RLe(VMaxAbs(VSub(a, b)), RMul(TolRel, RAdd(R(1), s)))
SamePts(P, M, s) == Len(P) = Len(M) /\ \A i \in 1..Len(M) : Close(P[i], M[i], s)
Valid(e) ==
  LET Q == E[e].Q
      z == E[e].z
      r == Trace[e].r
      P == TLCEval(R(r.curve.wps))
      M == ZCurve(Q, z)
      L == BDeriv(ZMomentum(Q, z), Q.T)
      dl == TLCEval(R(r.dL.wps))
      mult == R(r.dL.mult)
      x == SubSeq(z, 1, 3)
      kx == MV(Q.K.Kin, x)
      ax == IF Q.ang THEN MV(Q.K.Ang, SubSeq(z, 4, 6)) ELSE <<>>
      sl == VMaxAbs([i \in 1..Len(L) |-> VMaxAbs(L[i])])
  IN  UNION {
        Unless(SamePts(P, M, RAdd(VMaxAbs(z), VMaxAbs(Q.c0))), "the curve does not go from the initial state to a stop at x"),
        Unless(REq(R(r.curve.tmin), R(0)) /\ REq(R(r.curve.tmax), Q.T) /\ REq(R(r.curve.mult), R(1)), "duration"),
        IF Q.ang
        THEN Unless(Len(dl) = 3 /\ SamePts([i \in 1..Len(dl) |-> VScale(mult, dl[i])], L, RMul(R(10), sl)),
                    "dL does not bring the angular momentum from l0 to zero through xL")
        ELSE Unless(\A i \in 1..Len(dl) : REq(VMaxAbs(dl[i]), R(0)), "dL is not zero"),
        Unless(RLe(RAbs(RSub(R(r.dL.tmax), Q.T)), RMul(TolRel, Q.T)), "duration of dL"),
        UNION { LET ev == r.dL.evals[i]
                    u == RMin(R(1), RDiv(R(ev.t), Q.T))
                IN  Unless(~Q.ang \/ Close(R(ev.c), BEval(L, u), sl), "dL does not evaluate to the rate of momentum")
              : i \in 1..Len(r.dL.evals) },
        Unless(\A i \in 1..Len(Q.K.kin) : RLe(kx[i], RAdd(Q.K.kin[i], RMul(TolDyn, RAdd(R(1), VMaxAbs(Q.K.Kin[i]))))),
               "the robot does not stop in the reachable region"),
        Unless(\A i \in 1..Len(ax) : RLe(ax[i], RAdd(Q.K.ang[i], RMul(TolDyn, RAdd(R(1), VMaxAbs(Q.K.Ang[i]))))),
               "angular momentum out of its bounds"),
        Unless(ZCostOK(Q, z, R(r.cost), TolRel), "the cost is not the documented one") }

RowA(rows) == TLCEval([i \in 1..Len(rows) |-> rows[i].a])
RowB(rows) == TLCEval([i \in 1..Len(rows) |-> rows[i].b])
Tightened(A, b, eps) == TLCEval([i \in 1..Len(b) |-> RSub(b[i], RMul(eps, RAdd(R(1), RAdd(RAbs(b[i]), VMaxAbs(A[i])))))])
Missed(e) ==
  LET Q == E[e].Q
      rows == ZRows(Q)
      A == RowA(rows)
      b == Tightened(A, RowB(rows), Micro)
      b2 == Tightened(A, RowB(rows), RMul(R(2), Micro))
      o == QPSearch(ZHess([ang |-> Q.ang]), ZGrad(Q), A, b2)
  IN  IF o.status = "optimal" /\ IsFeasible(o.x, A, b, R(0)) /\ RLe(VMaxAbs(o.x), R(1000))
      THEN {"the robot could stop but the problem is reported infeasible"}
      ELSE IF o.status = "infeasible" THEN {} ELSE {"NOTE undecided"}
Better(e) ==
  LET Q == E[e].Q
      rows == ZRows(Q)
      A == RowA(rows)
      b == Tightened(A, RowB(rows), Nano)
      H == ZHess(Q)
      g == ZGrad(Q)
      o == QPSearch(H, g, A, b)
      cx == QuadCost(H, g, E[e].z)
      co == QuadCost(H, g, o.x)
      sc == RAdd(RQ(1, 10000), RAdd(RAbs(co), RAdd(QuadCost(H, VZero(ZDim(Q)), E[e].z), RAbs(VDot(g, E[e].z)))))
  IN  IF o.status = "optimal" /\ IsFeasible(o.x, A, RowB(rows), R(0))
      THEN Unless(RLe(cx, RAdd(co, RMul(Micro, sc))), "a better stop exists")
      ELSE {"NOTE undecided"}

Judge(e) ==
  CASE Crashed(e) -> {"crash"}
    [] Trace[e].r.outcome # "ok" -> {"exception"}
    [] Prop = "C17" -> Unless(Trace[e].r.pure, "the problem given was modified")
                       \cup Unless(Trace[e].r.repeat, "the same problem was answered differently")
    [] Succ(e) /\ ~WellFormed(e) -> {"x has the wrong size"}
    [] Prop = "C11" -> IF Succ(e) THEN Valid(e) \cup (IF E[e].Q.steps = 0 THEN Everywhere(e) ELSE {}) ELSE {}
    [] Prop = "C12" -> IF Succ(e) THEN Better(e) ELSE Missed(e)
    [] OTHER -> {}

Samples(e) == IF Prop = "C11" /\ E[e].ok THEN (IF E[e].Q.steps = 0 THEN 0 ELSE E[e].Q.steps + 1) ELSE 0
Init == l = 1 /\ k = 1 /\ bad = {}
Walk ==
  /\ l <= Len(Trace) /\ k <= Samples(l)
  /\ bad' = bad \cup At(l, k)
  /\ k' = k + 1 /\ UNCHANGED l
Notes(s) == {r \in s : Len(r) > 4 /\ SubSeq(r, 1, 4) = "NOTE"}
JudgeStep ==
  /\ l <= Len(Trace) /\ k > Samples(l)
  /\ LET all == bad \cup Judge(l)
     IN  /\ Report(l, all \ Notes(all))
         /\ IF Notes(all) = {} THEN TRUE ELSE Note(l, Notes(all))
  /\ bad' = {} /\ k' = 1 /\ l' = l + 1
Finish ==
  /\ l = Len(Trace) + 1 /\ k = 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace), success |-> Cardinality({e \in 1..Len(Trace) : Succ(e)}),
        failure |-> Cardinality({e \in 1..Len(Trace) : ~Succ(e)})]))
  /\ k' = 2 /\ UNCHANGED <<l, bad>>
Next == Walk \/ JudgeStep \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Trace) + 1)
=============================================================================
