------------------------------- MODULE ComTraj ------------------------------
(* What computeCOMTraj / computeCOMTrajFixedSize promise, for one call.        *)
(* A problem Q is a record of rationals:                                       *)
(*   flag, bc, Ts, mode ("disc" | "fixed" | "cont"), dt, ppp, rep, solver,     *)
(*   cost, accOn, accMax, reduce, contacts                                     *)
EXTENDS Centroidal, Schedule, Oracle

ParseProblem(p) ==
  TLCEval([flag |-> p.flag, bc |-> ParseBc(p.bc), Ts |-> R(p.Ts), mode |-> p.mode,
           dt |-> R(p.dt), ppp |-> p.ppp, rep |-> p.rep, solver |-> p.solver,
           cost |-> p.cost, accOn |-> p.accOn, accMax |-> R(p.accMax),
           reduce |-> R(p.reduce), l0 |-> R(p.l0), useAng |-> p.useAng,
           contacts |-> TLCEval([i \in 1..Len(p.contacts) |-> ParseContact(p.contacts[i])])])

Dur(Q) == Total(Q.Ts)
Sched(Q) == IF Q.mode = "disc" THEN StepSchedule(Q.Ts, Q.dt)
            ELSE IF Q.mode = "fixed" THEN FixedSchedule(Q.Ts, Q.ppp)
            ELSE FixedSchedule(Q.Ts, 7) \* only used by the cost in continuous mode

(* the curve whose free point is x, and its second derivative *)
Curve(Q, x) == ControlPoints(Q.flag, Q.bc, Dur(Q), <<x>>)
Curve2(Q, x) == BDerivK(Curve(Q, x), Dur(Q), 2)

(* margin to the faces of the friction cones *)
Margin(Q) == IF Q.rep = "force" THEN R(0) ELSE RMax(R(0), Q.reduce)
(* continuous problems bound the acceleration whether or not it was asked for  *)
(* (named deviation: that is what the library does and documents nowhere)      *)
AccBound(Q) == Q.accOn \/ Q.mode = "cont"

-----------------------------------------------------------------------------
(* Affine rows.  Every quantity constrained is affine in x, so it is known     *)
(* from its values at 0, e1, e2, e3.                                           *)
Probe == << VZero(3), VUnit(3, 1), VUnit(3, 2), VUnit(3, 3) >>
(* vals: sequence of 4 vectors of length m -> constant part and 3 columns *)
ColsOf(vals) == TLCEval([c |-> vals[1], m |-> TLCEval([j \in 1..3 |-> VSub(vals[j + 1], vals[1])])])
(* rows  v(x) >= lo  as  A x <= b *)
RowsGe(cols, lo) ==
  [r \in 1..Len(cols.c) |->
     [a |-> <<RNeg(cols.m[1][r]), RNeg(cols.m[2][r]), RNeg(cols.m[3][r])>>,
      b |-> RSub(cols.c[r], lo)]]
(* rows  v(x) <= hi[r] *)
RowsLe(cols, hi) ==
  [r \in 1..Len(cols.c) |->
     [a |-> <<cols.m[1][r], cols.m[2][r], cols.m[3][r]>>, b |-> RSub(hi[r], cols.c[r])]]

BlockRows(Q, ph, cs, dds) == \* cs, dds: values at the four probes
  LET K == Q.contacts[ph]
      ws == TLCEval([j \in 1..4 |-> MV(K.H, Wrench(cs[j], dds[j], K.g))])
      ks == TLCEval([j \in 1..4 |-> MV(K.Kin, cs[j])])
  IN  RowsGe(ColsOf(ws), Margin(Q)) \o (IF Len(K.kin) = 0 THEN <<>> ELSE RowsLe(ColsOf(ks), K.kin))
AccRows(Q, dds) ==
  LET c == ColsOf(dds)
      hi == <<Q.accMax, Q.accMax, Q.accMax>>
      n == [c |-> VNeg(c.c), m |-> [j \in 1..3 |-> VNeg(c.m[j])]]
  IN  RowsLe(c, hi) \o RowsLe(n, hi)

(* all rows of a discretised problem *)
DiscRows(Q) ==
  LET S == Sched(Q)
      T == Dur(Q)
      Ps == TLCEval([j \in 1..4 |-> Curve(Q, Probe[j])])
      Ds == TLCEval([j \in 1..4 |-> BDerivK(Ps[j], T, 2)])
      at(k) ==
        LET u == RMin(R(1), RDiv(S[k][1], T))
            bc == BernRow(Deg(Ps[1]), u)
            bd == BernRow(Deg(Ds[1]), u)
            cs == TLCEval([j \in 1..4 |-> LinComb(bc, Ps[j])])
            ds == TLCEval([j \in 1..4 |-> LinComb(bd, Ds[j])])
            phs == PhasesAt(S, k)
        IN  FlattenSeqs([ph \in 1..Len(Q.Ts) |-> IF ph \in phs THEN BlockRows(Q, ph, cs, ds) ELSE <<>>])
            \o (IF Q.accOn THEN AccRows(Q, ds) ELSE <<>>)
  IN  TLCEval(FlattenSeqs(TLCEval([k \in 1..Len(S) |-> TLCEval(at(k))])))

(* all rows of a continuous problem: control points of the restriction of c,   *)
(* c'' and W to each phase.  wdeg is the degree in which W is written: the     *)
(* lower the degree the more conservative; the library uses the true degree    *)
(* 2n-3 (n-1 + n-2), except that a curve that stops and the one with imposed    *)
(* jerks have W written in degree 2n-2.                                        *)
WDegree(flag) == IF Stops(flag) \/ flag = F_j1 THEN 2 * Degree(flag) - 2 ELSE 2 * Degree(flag) - 3
WCurve(Q, P, D, g) == \* Bernstein coefficients of W, degree 2n-2
  LET F == BSubConst(D, g)
      X == BCross(P, F)
      FE == BElevateTo(F, Deg(X))
  IN  TLCEval([i \in 1..Len(X) |-> FE[i] \o X[i]])
RECURSIVE BReduceTo(_, _)
BReduceTo(P, n) == IF Deg(P) <= n THEN P ELSE BReduceTo(BReduce(P), n)

ContRows(Q) ==
  LET T == Dur(Q)
      st == Starts(Q.Ts)
      Ps == TLCEval([j \in 1..4 |-> Curve(Q, Probe[j])])
      Ds == TLCEval([j \in 1..4 |-> BDerivK(Ps[j], T, 2)])
      Ws(g) == TLCEval([j \in 1..4 |-> BReduceTo(WCurve(Q, Ps[j], Ds[j], g), WDegree(Q.flag))])
      phase(i) ==
        LET K == Q.contacts[i]
            u0 == RDiv(st[i], T)
            u1 == IF i = Len(Q.Ts) THEN R(1) ELSE RDiv(st[i + 1], T)
            cs == TLCEval([j \in 1..4 |-> BSplit(Ps[j], u0, u1)])
            ds == TLCEval([j \in 1..4 |-> BSplit(Ds[j], u0, u1)])
            W == Ws(K.g)
            ws == TLCEval([j \in 1..4 |-> BSplit(W[j], u0, u1)])
            stab(k) == RowsGe(ColsOf([j \in 1..4 |-> MV(K.H, ws[j][k])]), Margin(Q))
            kin(k) == RowsLe(ColsOf([j \in 1..4 |-> MV(K.Kin, cs[j][k])]), K.kin)
            acc(k) == AccRows(Q, [j \in 1..4 |-> ds[j][k]])
        IN  FlattenSeqs(TLCEval([k \in 1..Len(ws[1]) |-> TLCEval(stab(k))]))
            \o (IF Len(K.kin) = 0 THEN <<>> ELSE FlattenSeqs(TLCEval([k \in 1..Len(cs[1]) |-> TLCEval(kin(k))])))
            \o FlattenSeqs(TLCEval([k \in 1..Len(ds[1]) |-> TLCEval(acc(k))]))
  IN  TLCEval(FlattenSeqs(TLCEval([i \in 1..Len(Q.Ts) |-> TLCEval(phase(i))])))

Rows(Q) == IF Q.mode = "cont" THEN ContRows(Q) ELSE DiscRows(Q)

-----------------------------------------------------------------------------
(* The objective: h/2 |x|^2 + g.x with a scalar h.                             *)
CostOf(Q) ==
  LET T == Dur(Q)
      Ps == TLCEval([j \in 1..4 |-> Curve(Q, Probe[j])])
  IN  IF Q.cost = "dist"
      THEN [h |-> R(1), g |-> VScale(RQ(-1, 2), VAdd(Q.bc.c0, Q.bc.c1))]
      ELSE IF Q.cost = "vel"
      THEN LET D == TLCEval([j \in 1..2 |-> BDerivK(Ps[j], T, 1)])
               v0 == D[1][Len(D[1])]
               k == RSub(D[2][Len(D[2])][1], v0[1])
           IN  [h |-> RMul(k, k), g |-> VScale(k, VSub(v0, Q.bc.dc1))]
      ELSE LET S == Sched(Q)
               D == TLCEval([j \in 1..2 |-> BDerivK(Ps[j], T, 2)])
               at(k) == LET b == BernRow(Deg(D[1]), RMin(R(1), RDiv(S[k][1], T)))
                            d0 == LinComb(b, D[1])
                            c == RSub(LinComb(b, D[2])[1], d0[1])
                        IN  [h |-> RMul(c, c), g |-> VScale(c, d0)]
               all == TLCEval([k \in 1..Len(S) |-> TLCEval(at(k))])
           IN  [h |-> VSum([k \in 1..Len(S) |-> all[k].h]),
                g |-> LinComb([k \in 1..Len(S) |-> R(1)], [k \in 1..Len(S) |-> all[k].g])]

(* value of the objective; the LP solver drops the quadratic part *)
CostAt(Q, co, x) ==
  RAdd(IF Q.solver = "glpk" THEN R(0) ELSE RMul(RMul(RQ(1, 2), co.h), VDot(x, x)), VDot(co.g, x))
=============================================================================
