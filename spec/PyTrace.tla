------------------------------- MODULE PyTrace ------------------------------
(* Conformance of the Python interface with Bindings (C19): every operation of *)
(* a recorded history is performed on the model too; what the program saw must *)
(* be what the model shows, and an answer must be one that the library owes    *)
(* for what the objects held: it is judged by ComTraj, ZeroStep and EndEff.    *)
EXTENDS Bindings, ComTraj, TraceBase
Z == INSTANCE ZeroStep
EF == INSTANCE EndEff

VARIABLES l,     \* event
          k,     \* operation of event l
          given, \* result -> operation that gave it
          bad
vars == <<heap, slot, l, k, given, bad>>

TolDyn == RQ(1, 10000000)
TolRel == RQ(1, 100000000)
Micro == RQ(1, 1000000)
Loose == RQ(1, 100000)
Nano == RQ(1, 1000000000)

-----------------------------------------------------------------------------
(* the tables of event e, as written by the driver *)
Zero3 == <<"0", "0", "0">>
VecS(e, i) == IF i = 0 THEN Zero3 ELSE Trace[e].vec[i]
Vec(e, i) == R(VecS(e, i))
Contact(e, w, kin, ang) ==
  LET G == Trace[e].geo[w]
  IN  [H |-> TLCEval(R(G.H)), g |-> TLCEval(R(G.g)), mass |-> R(G.mass),
       Kin |-> IF kin = 0 THEN <<>> ELSE TLCEval(R(Trace[e].kin[kin].A)), kin |-> IF kin = 0 THEN <<>> ELSE TLCEval(R(Trace[e].kin[kin].b)),
       Ang |-> IF ang = 0 THEN <<>> ELSE TLCEval(R(Trace[e].ang[ang].A)), ang |-> IF ang = 0 THEN <<>> ELSE TLCEval(R(Trace[e].ang[ang].b))]
(* the jerks are not given: zero *)
States(e, p) ==
  [c0 |-> Vec(e, p.v["c0"]), dc0 |-> Vec(e, p.v["dc0"]), ddc0 |-> Vec(e, p.v["ddc0"]), j0 |-> VZero(3),
   c1 |-> Vec(e, p.v["c1"]), dc1 |-> Vec(e, p.v["dc1"]), ddc1 |-> Vec(e, p.v["ddc1"]), j1 |-> VZero(3)]
Durations(e, n) == TLCEval(R(Trace[e].ts[n]))
ProblemOf(e, a) == \* a: a result of heap.res
  LET p == a.prob
  IN  TLCEval([flag |-> p.con.flag, bc |-> TLCEval(States(e, p)), Ts |-> Durations(e, a.ts),
               mode |-> IF a.dt = 0 THEN "cont" ELSE "disc", dt |-> R(Trace[e].dt[a.dt + 1]), ppp |-> 0,
               rep |-> IF p.rep = 1 THEN "dd" ELSE "force", solver |-> IF a.sol = 2 THEN "glpk" ELSE "qp",
               cost |-> CASE p.cost = 1 -> "acc" [] p.cost = 2 -> "dist" [] OTHER -> "vel",
               accOn |-> p.con.on, accMax |-> R(Trace[e].max[p.con.max + 1]), reduce |-> R(Trace[e].red[p.con.red + 1]),
               contacts |-> TLCEval([i \in 1..Len(p.contacts) |-> TLCEval(Contact(e, p.contacts[i].w, p.contacts[i].kin, p.contacts[i].ang))])])

-----------------------------------------------------------------------------
(* what a trajectory object shows *)
Close(a, b, s) == Len(a) = Len(b) /\ RLe(VMaxAbs(VSub(a, b)), RMul(TolRel, RAdd(R(1), s)))
CloseS(a, b, s) == RLe(RAbs(RSub(a, b)), RMul(TolRel, RAdd(R(1), s)))
PtsMax(P) == IF P = <<>> THEN R(0) ELSE VMaxAbs([i \in 1..Len(P) |-> VMaxAbs(P[i])])
CurveIs(c, M, T, what) == \* curve c is the curve of control points M and duration T
  LET P == TLCEval(R(c.wps))
      sc == PtsMax(M)
      s2 == RMul(RMul(R(Len(M) * Len(M)), sc), RDiv(R(1), RMul(T, T)))
      M2 == IF Len(M) > 2 THEN BDerivK(M, T, 2) ELSE M
  IN  IF Len(P) # Len(M) \/ \E i \in 1..Len(P) : Len(P[i]) # 3 \/ \E j \in 1..3 : ~RIsNum(P[i][j]) THEN {what \o ": not this curve"}
      ELSE UNION {
        Unless(\A i \in 1..Len(M) : Close(P[i], M[i], sc), what \o ": control points"),
        Unless(REq(R(c.tmin), R(0)) /\ CloseS(R(c.tmax), T, T), what \o ": duration"),
        UNION { LET ev == c.evals[i]
                    u == RMin(R(1), RDiv(R(ev.t), R(c.tmax)))
                IN  Unless(Close(R(ev.c), BEval(M, u), sc) /\ Close(R(ev.dc), BDerivAt(M, T, 1, u), RAdd(sc, s2))
                           /\ Close(R(ev.ddc), BEval(M2, u), RAdd(sc, s2)), what \o ": values")
              : i \in 1..Len(c.evals) } }
ValuesAre(c, M, T, what) == \* curve c has the values of the curve of control points M, at more instants than its degree
  UNION { Unless(CloseS(R(c.tmax), T, T) /\ Len(c.evals) > Len(M), what \o ": duration"),
          UNION { Unless(Close(R(c.evals[i].c), BEval(M, RMin(R(1), RDiv(R(c.evals[i].t), R(c.tmax)))), RMul(R(10), PtsMax(M))), what \o ": values")
                : i \in 1..Len(c.evals) } }
Still(c) == \A i \in 1..Len(c.wps) : REq(VMaxAbs(R(c.wps[i])), R(0))
RowA(rows) == TLCEval([i \in 1..Len(rows) |-> rows[i].a])
RowB(rows) == TLCEval([i \in 1..Len(rows) |-> rows[i].b])
Tight(A, b, eps) == TLCEval([i \in 1..Len(b) |-> RSub(b[i], RMul(eps, RAdd(RAbs(b[i]), RAdd(R(1), VMaxAbs(A[i])))))])
Holds(A, b, x) == LET ax == MV(A, x)
                  IN  \A i \in 1..Len(b) : RLe(ax[i], RAdd(b[i], RMul(RQ(1, 1000000), RAdd(RAbs(b[i]), RAdd(R(1), VMaxAbs(A[i]))))))
Eye(n) == TLCEval([i \in 1..n |-> VUnit(n, i)])
(* a failure is an answer too: nothing robustly feasible exists *)
Hopeless(A, b, n, far) ==
  LET o == QPSearch(Eye(n), VZero(n), A, Tight(A, b, RMul(R(2), Micro)))
  IN  ~(o.status = "optimal" /\ IsFeasible(o.x, A, Tight(A, b, Micro), R(0)) /\ RLe(VMaxAbs(o.x), far))
(* no better point, up to tol times the size of the terms *)
BestOf(H, g, A, b, x, tol) ==
  LET o == QPSearch(H, g, A, Tight(A, b, Nano))
      cx == QuadCost(H, g, x)
      sc == RAdd(RQ(1, 1000), RAdd(QuadCost(H, VZero(Len(x)), x), RAbs(VDot(g, x))))
  IN  ~(o.status = "optimal" /\ IsFeasible(o.x, A, b, R(0))) \/ RLe(cx, RAdd(QuadCost(H, g, o.x), RMul(tol, sc)))
ShapeOK(r, n) == Len(r.x) = n /\ r.xerr = "" /\ \A i \in 1..n : RIsNum(R(r.x[i]))
NoX(r) == Unless(Len(r.x) = 0 /\ r.xerr = "RuntimeError", "a failure has an x")

ComAnswer(e, a, r) ==
  LET Q == ProblemOf(e, a)
      rows == TLCEval(Rows(Q))
      A == RowA(rows)
      b == RowB(rows)
      x == R(r.x)
      co == TLCEval(CostOf(Q))
      v == CostAt(Q, co, x)
      loose == Q.rep = "force" /\ Q.solver = "qp"
      hess == TLCEval([i \in 1..3 |-> VScale(IF REq(co.h, R(0)) THEN R(1) ELSE co.h, VUnit(3, i))])
      lp == LPSearch(co.g, A, Tight(A, b, Nano))
  IN  IF ~r.success
      THEN NoX(r) \cup (IF Q.solver = "glpk" /\ LPSearch(co.g, A, Tight(A, b, Micro)).status # "optimal" THEN {}
                        ELSE Unless(Hopeless(A, b, 3, R(10000)), "a problem with a solution is reported infeasible"))
      ELSE IF ~ShapeOK(r, 3) THEN {"x is not a point"}
      ELSE UNION { CurveIs(r.curve, ControlPoints(Q.flag, Q.bc, Dur(Q), <<x>>), Dur(Q), "trajectory"),
                   Unless(Holds(A, b, x), "the constraints do not hold"),
                   Unless(Still(r.dL), "dL is not zero"),
                   Unless(loose \/ CloseS(R(r.cost), v, RAdd(RAbs(v), RAdd(RMul(co.h, VDot(x, x)), RAbs(VDot(co.g, x))))), "cost"),
                   Unless(loose \/ Q.solver = "glpk" \/ BestOf(hess, co.g, A, b, x, IF Q.rep = "force" THEN RQ(1, 1000) ELSE Micro),
                          "a cheaper trajectory exists"),
                   Unless(Q.solver # "glpk" \/ lp.status # "optimal" \/ ~IsFeasible(lp.x, A, b, R(0))
                          \/ RLe(VDot(co.g, x), RAdd(VDot(co.g, lp.x), RMul(Micro, RAdd(R(1), RAdd(RAbs(VDot(co.g, x)), RAbs(VDot(co.g, lp.x))))))),
                          "a cheaper trajectory exists") }
ZeroAnswer(e, a, r, T, dt) ==
  LET Q == TLCEval([c0 |-> Vec(e, a.c0), dc0 |-> Vec(e, a.dc0), l0 |-> Vec(e, a.l0), T |-> T, ang |-> a.ang,
                    K |-> TLCEval(Contact(e, a.w, a.kin, 0)), steps |-> Z!ZSteps(T, dt)])
      rows == TLCEval(Z!ZRows(Q))
      A == RowA(rows)
      b == RowB(rows)
      n == Z!ZDim(Q)
      x == R(r.x)
  IN  IF ~r.success THEN NoX(r) \cup Unless(Hopeless(A, b, n, R(1000)), "the robot could stop but the problem is reported infeasible")
      ELSE IF ~ShapeOK(r, n) THEN {"x has the wrong size"}
      ELSE UNION { CurveIs(r.curve, Z!ZCurve(Q, x), T, "trajectory"),
                   Unless(Holds(A, b, x), "the constraints do not hold"),
                   IF Q.ang THEN ValuesAre(r.dL, BDeriv(Z!ZMomentum(Q, x), T), T, "dL") ELSE Unless(Still(r.dL), "dL is not zero"),
                   Unless(Z!ZCostOK(Q, x, R(r.cost), TolRel), "cost"),
                   Unless(BestOf(Z!ZHess(Q), Z!ZGrad(Q), A, b, x, Micro), "a better stop exists") }
EEProblem(e, p, T) == TLCEval([flag |-> p.con.flag, T |-> T, w |-> R(0), path |-> <<>>, bc |-> TLCEval(States(e, p))])
EEAnswer(e, a, r, T) ==
  LET q == EEProblem(e, a.prob, T)
      rows == TLCEval(EF!EERows(q))
      A == RowA(rows)
      b == RowB(rows)
      n == EF!NV(q)
      x == R(r.x)
      O == TLCEval(EF!EEObjective(q, R(0), <<>>))
  IN  IF ~r.success THEN NoX(r) \cup Unless(Hopeless(A, b, n, R(10000)), "a feasible motion is reported infeasible")
      ELSE IF ~ShapeOK(r, n) THEN {"x has the wrong size"}
      ELSE UNION { CurveIs(r.curve, EF!EECurve(q, x), T, "trajectory"),
                   Unless(Holds(A, b, x), "the constraints do not hold"),
                   Unless(BestOf(O.H, O.g, A, b, x, Loose), "a better trajectory exists") }
Answer(e, a, r) ==
  CASE a.fn = "com" -> ComAnswer(e, a, r)
    [] a.fn = "zero" -> ZeroAnswer(e, a, r, R(r.T), R(r.dt))
    [] OTHER -> EEAnswer(e, a, r, R(r.T))

(* the pieces of the end-effector problem *)
MatMax(H) == VMaxAbs([i \in 1..Len(H) |-> VMaxAbs(H[i])])
SameQuad(Q, H, g, tol) ==
  LET sc == RMul(tol, RAdd(MatMax(Q.H), VMaxAbs(Q.g)))
  IN  /\ Len(H) = Len(Q.H) /\ Len(g) = Len(Q.g)
      /\ \A i \in 1..Len(H) : Len(H[i]) = Len(H) /\ RLe(VMaxAbs(VSub(H[i], Q.H[i])), sc)
      /\ RLe(VMaxAbs(VSub(g, Q.g)), sc)
SameRow(r, A, b) ==
  /\ Len(A) = Len(r.a)
  /\ LET sc == RMul(TolDyn, RAdd(RAdd(R(1), RAbs(r.b)), VMaxAbs(r.a))) IN RLe(VMaxAbs(VSub(A, r.a)), sc) /\ RLe(RAbs(RSub(b, r.b)), sc)
SameRows(rows, A, b) ==
  /\ Len(A) = Len(b)
  /\ \A i \in 1..Len(rows) : \E j \in 1..Len(A) : SameRow(rows[i], A[j], b[j])
  /\ \A j \in 1..Len(A) :
       (REq(VMaxAbs(A[j]), R(0)) /\ RLe(R(0), b[j])) \* says nothing
       \/ (\E i \in 1..Len(rows) : SameRow(rows[i], A[j], b[j]))
Piece(e, x, r) ==
  LET T == R(r.T)
      q == EEProblem(e, x.prob, T)
      A == R(r.A)
      b == R(r.b)
  IN  CASE x.k = "eeRows" -> Unless(r.k = "mat" /\ SameRows(TLCEval(EF!EERows(q)), TLCEval(A), TLCEval(b)), "the constraints are not those of the problem")
        [] x.k = "eeVel" -> Unless(r.k = "mat" /\ SameQuad(EF!Unit(EF!SmoothQuad(q)), A, b, Loose), "velocity cost")
        [] x.k = "eeDist" -> Unless(r.k = "mat" /\ SameQuad(EF!Unit(EF!DistQuad(q, TLCEval([i \in 1..Len(x.path) |-> Vec(e, x.path[i])]))), A, b, TolDyn), "distance cost")
        [] OTHER -> LET P == R(r.wps)
                        M == ControlPoints(q.flag, q.bc, T, [j \in 1..NumFree(q.flag) |-> VZero(3)])
                    IN  Unless(r.k = "wps" /\ Len(P) = Len(M) /\ \A i \in 1..Len(M) : Close(P[i], M[i], PtsMax(M)), "constant control points")

-----------------------------------------------------------------------------
Op(e, i) == Trace[e].steps[i].op
Out(e, i) == Trace[e].steps[i].out
Same(a, b) == a.success = b.success /\ a.cost = b.cost /\ a.x = b.x /\ a.xerr = b.xerr /\ a.curve = b.curve /\ a.dL = b.dL
(* x: what the model shows, h: the heap after; r: what the program saw *)
Compare(e, x, h, r) ==
  IF x.k \in {"ok", "error"} THEN Unless(r.k = x.k, IF x.k = "ok" THEN "an exception" ELSE "no exception")
  ELSE IF r.k = "error" THEN {"an exception"}
  ELSE CASE x.k = "geo" -> LET G == Trace[e].geo[x.w] IN Unless(r.k = "geo" /\ r.geo.H = G.H /\ r.geo.g = G.g /\ r.geo.mass = G.mass, "not the geometry of this object")
         [] x.k = "kin" -> Unless(r.k = "pair" /\ r.v = Trace[e].kin[x.n], "not the kinematic constraints of this contact")
         [] x.k = "ang" -> Unless(r.k = "pair" /\ r.v = Trace[e].ang[x.n], "not the angular constraints of this contact")
         [] x.k = "vec" -> Unless(r.k = "vec" /\ r.v = VecS(e, x.v), "not the value of this field")
         [] x.k = "bool" -> Unless(r.k = "bool" /\ r.b = x.b, "not the value of this switch")
         [] x.k = "int" -> Unless(r.k = "int" /\ r.i = x.i, "not the value of this choice")
         [] x.k = "con" -> Unless(r.k = "con" /\ r.flag = x.con.flag /\ r.on = x.con.on /\ r.max = Trace[e].max[x.con.max + 1]
                                  /\ r.red = Trace[e].red[x.con.red + 1], "not the constraints of this object")
         [] x.k = "answer" -> IF r.k # "answer" THEN {"not an answer"} ELSE Answer(e, h.res[x.n], r)
         [] x.k = "again" -> Unless(r.k = "answer" /\ Same(r, Out(e, given[x.n])), "the answer has changed")
         [] x.k = "curve" -> Unless(r.k = "curve" /\ r.curve = Out(e, given[x.n]).curve, "the trajectory has changed")
         [] OTHER -> Piece(e, x, r)
Named(o) == IF o[1] \in {"set", "get"} THEN o[1] \o " " \o o[3] ELSE o[1]
N(e) == IF Crashed(e) THEN 0 ELSE Len(Trace[e].steps)

TInit == Init /\ l = 1 /\ k = 1 /\ given = <<>> /\ bad = {}
Follow ==
  /\ l <= Len(Trace) /\ k <= N(l)
  /\ Able(heap, slot, Op(l, k))
  /\ LET o == Op(l, k)
         x == Effect(heap, slot, o)
     IN  /\ heap' = x.h /\ slot' = x.s
         /\ given' = IF Len(x.h.res) > Len(heap.res) THEN Append(given, k) ELSE given
         \* after a refusal or an answer that should not have been, the rest is not comparable
         /\ LET c == Compare(l, x.out, x.h, Out(l, k))
            IN  /\ bad' = bad \cup {"operation " \o ToString(k) \o " (" \o Named(o) \o "): " \o b : b \in c}
                /\ k' = IF x.out.k \in {"ok", "error", "answer"} /\ c \in {{"an exception"}, {"no exception"}} THEN N(l) + 1 ELSE k + 1
  /\ UNCHANGED l
Judge ==
  /\ l <= Len(Trace) /\ k > N(l)
  /\ Report(l, bad \cup (IF Crashed(l) THEN {"crash"} ELSE {}))
  /\ l' = l + 1 /\ k' = 1 /\ bad' = {} /\ given' = <<>>
  /\ heap' = Heap0 /\ slot' = Slot0
Count(p(_, _)) == Cardinality({<<e, i>> \in (1..Len(Trace)) \X (1..200) : IF i > N(e) THEN FALSE ELSE p(e, i)})
Finish ==
  /\ l = Len(Trace) + 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace), operations |-> Count(LAMBDA e, i : TRUE),
       answers |-> Count(LAMBDA e, i : Op(e, i)[1] \in {"solve", "zero", "ee"} /\ Out(e, i).k = "answer"),
       success |-> Count(LAMBDA e, i : IF Op(e, i)[1] \in {"solve", "zero", "ee"} /\ Out(e, i).k = "answer" THEN Out(e, i).success ELSE FALSE),
       exceptions |-> Count(LAMBDA e, i : Out(e, i).k = "error")]))
  /\ l' = l + 1 /\ UNCHANGED <<heap, slot, k, given, bad>>
TNext == Follow \/ Judge \/ Finish
TypeOK == l \in 1..(Len(Trace) + 2) /\ Refs
=============================================================================
