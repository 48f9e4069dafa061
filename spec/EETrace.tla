------------------------------- MODULE EETrace -------------------------------
(* Conformance of solveEndEffector with EndEff.  A behaviour goes through each *)
(* recorded call in four steps: the pieces of the optimisation problem that    *)
(* the public functions give, the trajectory, its limits, its cost.            *)
EXTENDS EndEff, HalfSpaces, TraceBase

VARIABLES l, stage, bad
vars == <<l, stage, bad>>
Stages == <<"pieces", "curve", "limits", "cost">>

Tol == RQ(1, 10000000)
Nano == RQ(1, 1000000000)
Loose == RQ(1, 100000)
E == [e \in 1..Len(Trace) |->
  IF Crashed(e) THEN <<>>
  ELSE LET ev == Trace[e]
           b == ev.bc
       IN  [flag |-> ev.flag, T |-> R(ev.T), w |-> R(ev.wd),
            path |-> TLCEval(R(ev.path)),
            bc |-> [c0 |-> R(b.c0), dc0 |-> R(b.dc0), ddc0 |-> R(b.ddc0), j0 |-> R(b.j0),
                    c1 |-> R(b.c1), dc1 |-> R(b.dc1), ddc1 |-> R(b.ddc1), j1 |-> R(b.j1)]]]
Used == Prop # "C17"
(* the affine limits of each problem, and its objective *)
Lims == [e \in 1..Len(Trace) |-> IF Crashed(e) \/ ~Used THEN <<>> ELSE EERows(E[e])]
Objs == [e \in 1..Len(Trace) |-> IF Crashed(e) \/ ~Used THEN <<>> ELSE EEObjective(E[e], E[e].w, E[e].path)]
Succ(e) == Trace[e].r.outcome = "ok" /\ Trace[e].r.success
MatMax(H) == VMaxAbs([i \in 1..Len(H) |-> VMaxAbs(H[i])])
SameQuad(Q, lib, tol) ==
  LET H == R(lib.H)
      g == R(lib.g)
      sc == RMul(tol, RAdd(MatMax(Q.H), VMaxAbs(Q.g)))
  IN  /\ Len(H) = Len(Q.H) /\ Len(g) = Len(Q.g)
      /\ \A i \in 1..Len(H) : Len(H[i]) = Len(H) /\ RLe(VMaxAbs(VSub(H[i], Q.H[i])), sc)
      /\ RLe(VMaxAbs(VSub(g, Q.g)), sc)

(* the rows of the implementation, those that exclude nothing left out (the    *)
(* ground has one for every unknown, but only heights are limited)             *)
LibRows(e) ==
  LET A == R(Trace[e].rows.A)
      b == R(Trace[e].rows.b)
  IN  SelectSeq([i \in 1..Len(b) |-> [a |-> A[i], b |-> b[i]]], LAMBDA p : ~Idle(p))
Worth(q, P, claims) ==
  LET sc == RAdd(R(1), VMaxAbs([i \in 1..Len(P) |-> VMaxAbs(P[i])]))
  IN  \A k \in 1..Len(claims) :
        RLe(VMaxAbs(VSub(BDerivAt(P, q.T, claims[k][1], claims[k][2]), claims[k][3])),
            RMul(Nano, RMul(sc, RPow(RDiv(R(8), q.T), claims[k][1]))))
Pieces(e) ==
  LET q == E[e]
      ev == Trace[e]
  IN  UNION { Unless(SameQuad(Unit(DistQuad(q, q.path)), ev.dist, Tol), "distance cost"),
              Unless(SameQuad(DerivQuad(q, 1, ev.np), ev.veld, Tol), "discretised velocity cost"),
              Unless(SameQuad(DerivQuad(q, 2, ev.np), ev.accd, Tol), "discretised acceleration cost"),
              Unless(SameQuad(DerivQuad(q, 3, ev.np), ev.jerkd, Tol), "discretised jerk cost"),
              Unless(Len(ev.away) = 5 /\ Worth(q, R(ev.away), LiftOff(q)), "the curve of lift off"),
              Unless(Len(ev.home) = 5 /\ Worth(q, R(ev.home), Landing(q)), "the curve of landing"),
              Unless(Within(Lims[e], LibRows(e)), "a limit is lost"),
              Unless(Within(LibRows(e), Lims[e]), "a limit is invented"),
              Unless(SameQuad(Objs[e], ev.obj, Loose), "objective") }
CurveOK(e) ==
  IF ~Succ(e) THEN {}
  ELSE LET q == E[e]
           r == Trace[e].r
           z == R(r.x)
           P == R(r.curve.wps)
           M == EECurve(q, z)
           sc == RAdd(R(1), VMaxAbs([i \in 1..Len(P) |-> VMaxAbs(P[i])]))
           val(o, u, v) == RLe(VMaxAbs(VSub(BDerivAt(P, q.T, o, u), v)),
                               RMul(Nano, RMul(sc, RPow(RDiv(R(2 * Degree(q.flag)), q.T), o))))
       IN  IF Len(z) # NV(q) \/ Len(P) # Degree(q.flag) + 1 THEN {"not the curve of this problem"}
           ELSE UNION { Unless(\A i \in 1..Len(P) : RLe(VMaxAbs(VSub(P[i], M[i])), RMul(Nano, sc)), "the curve is not the curve of x"),
                        Unless(REq(R(r.curve.tmin), R(0)) /\ RLe(RAbs(RSub(R(r.curve.tmax), q.T)), RMul(Nano, q.T)), "duration"),
                        Unless(REq(R(r.curve.mult), R(1)), "the curve is scaled"),
                        UNION {Unless(val(o, R(0), InitVal(q.bc, o)), "initial derivative " \o ToString(o)) : o \in 0..3},
                        UNION {Unless(val(o, R(1), EndVal(q.bc, o)), "final derivative " \o ToString(o)) : o \in 0..3} }
RowsA(rows) == TLCEval([i \in 1..Len(rows) |-> rows[i].a])
RowsB(rows) == TLCEval([i \in 1..Len(rows) |-> rows[i].b])
Tight(A, b, eps) == TLCEval([i \in 1..Len(b) |-> RSub(b[i], RMul(eps, RAdd(RAbs(b[i]), RAdd(R(1), VMaxAbs(A[i])))))])
Eye(n) == TLCEval([i \in 1..n |-> VUnit(n, i)])
Limits(e) ==
  LET q == E[e]
      rows == Lims[e]
      A == RowsA(rows)
      b == RowsB(rows)
  IN  IF Succ(e)
      THEN LET ax == MV(A, R(Trace[e].r.x))
           IN  Unless(\A i \in 1..Len(b) : RLe(ax[i], RAdd(b[i], RMul(Tol, RAdd(RAbs(b[i]), RAdd(R(1), VMaxAbs(A[i])))))),
                      "below the ground or too fast")
      ELSE LET bt == Tight(A, b, RQ(1, 1000000))
               o == QPSearch(Eye(NV(q)), VZero(NV(q)), A, Tight(A, b, RQ(2, 1000000)))
           IN  Unless(~(o.status = "optimal" /\ IsFeasible(o.x, A, bt, R(0))), "a feasible problem is reported infeasible")
Cost(e) ==
  IF ~Succ(e) THEN {}
  ELSE LET q == E[e]
           rows == Lims[e]
           A == RowsA(rows)
           b == RowsB(rows)
           Q == Objs[e]
           o == QPSearch(Q.H, Q.g, A, Tight(A, b, Nano))
           z == R(Trace[e].r.x)
           sc == RAdd(RQ(1, 1000), RAdd(QuadCost(Q.H, VZero(NV(q)), z), RAbs(VDot(Q.g, z))))
       IN  IF o.status = "optimal" /\ IsFeasible(o.x, A, b, R(0))
           THEN Unless(RLe(QuadCost(Q.H, Q.g, z), RAdd(QuadCost(Q.H, Q.g, o.x), RMul(Loose, sc))),
                       "a better trajectory exists")
           ELSE {"NOTE undecided"}
Step(e, s) ==
  IF Crashed(e) THEN IF s = 4 THEN {"crash"} ELSE {}
  ELSE IF Trace[e].r.outcome # "ok" THEN IF s = 4 THEN {"exception"} ELSE {}
  ELSE IF Prop = "C17" THEN
         IF s = 4 THEN Unless(Trace[e].r.pure, "the problem given was modified")
                       \cup Unless(Trace[e].r.repeat, "the same problem was answered differently") ELSE {}
  ELSE CASE s = 1 -> Pieces(e) [] s = 2 -> CurveOK(e) [] s = 3 -> Limits(e) [] OTHER -> Cost(e)

Init == l = 1 /\ stage = 1 /\ bad = {}
Visit ==
  /\ l <= Len(Trace) /\ stage < 4
  /\ bad' = bad \cup Step(l, stage)
  /\ stage' = stage + 1 /\ UNCHANGED l
Notes(s) == {r \in s : Len(r) > 4 /\ SubSeq(r, 1, 4) = "NOTE"}
Judge ==
  /\ l <= Len(Trace) /\ stage = 4
  /\ LET all == bad \cup Step(l, 4)
     IN  /\ Report(l, all \ Notes(all))
         /\ IF Notes(all) = {} THEN TRUE ELSE Note(l, Notes(all))
  /\ bad' = {} /\ stage' = 1 /\ l' = l + 1
Finish ==
  /\ l = Len(Trace) + 1 /\ stage = 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace),
       success |-> Cardinality({e \in 1..Len(Trace) : IF Crashed(e) THEN FALSE ELSE Succ(e)}),
       failure |-> Cardinality({e \in 1..Len(Trace) : IF Crashed(e) THEN FALSE ELSE ~Succ(e)})]))
  /\ stage' = 5 /\ UNCHANGED <<l, bad>>
Next == Visit \/ Judge \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == stage \in 1..5
=============================================================================
