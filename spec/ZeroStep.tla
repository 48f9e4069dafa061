------------------------------- MODULE ZeroStep -----------------------------
(* Zero-step capturability: can the robot come to a stop in time T without     *)
(* changing its contacts, and how?  The centre of mass follows the cubic with  *)
(* control points c0, c0 + T/3 dc0, x, x; the angular momentum, when it is     *)
(* used, the cubic with control points l0, xL, 0, 0.  The contacts have to     *)
(* provide the wrench  m W(t) + (0, L'(t)).                                    *)
(* A problem Q: c0, dc0, l0, T, ang, K (the contact phase), steps (0: at every *)
(* instant).  The unknown z is x, or x followed by xL.                         *)
EXTENDS Centroidal, Oracle

ZDim(Q) == IF Q.ang THEN 6 ELSE 3
ZCurve(Q, z) == LET x == SubSeq(z, 1, 3) IN <<Q.c0, VAdd(Q.c0, VScale(RDiv(Q.T, R(3)), Q.dc0)), x, x>>
ZMomentum(Q, z) == IF Q.ang THEN <<Q.l0, SubSeq(z, 4, 6), VZero(3), VZero(3)>>
                   ELSE <<VZero(3), VZero(3), VZero(3), VZero(3)>>
(* steps of a discretised problem: as many time steps as fit in T *)
ZSteps(T, dt) == IF RLe(dt, R(0)) THEN 0 ELSE RFloorInt(RDiv(T, dt))

(* control points (degree 4) of the wrench demanded from the contacts *)
Demand(Q, z) ==
  LET P == ZCurve(Q, z)
      F == BSubConst(BDerivK(P, Q.T, 2), Q.K.g)      \* degree 1
      M == BCross(P, F)                              \* degree 4
      L == BElevateTo(BDeriv(ZMomentum(Q, z), Q.T), 4)
      F4 == BElevateTo(F, 4)
  IN  TLCEval([i \in 1..5 |-> VScale(Q.K.mass, F4[i]) \o VAdd(VScale(Q.K.mass, M[i]), L[i])])
(* the wrenches that are constrained *)
ZPoints(Q, z) ==
  IF Q.steps = 0 THEN Demand(Q, z)
  ELSE LET D == Demand(Q, z)
       IN  TLCEval([i \in 1..(Q.steps + 1) |-> BEval(D, RQ(i - 1, Q.steps))])

ZProbes(Q) == <<VZero(ZDim(Q))>> \o [j \in 1..ZDim(Q) |-> VUnit(ZDim(Q), j)]
ZRows(Q) ==
  LET n == ZDim(Q)
      pr == ZProbes(Q)
      pts == TLCEval([j \in 1..(n + 1) |-> ZPoints(Q, pr[j])])
      vals(k) == TLCEval([j \in 1..(n + 1) |-> MV(Q.K.H, pts[j][k])])
      rows(v) == TLCEval([r \in 1..Len(v[1]) |->
                   [a |-> TLCEval([j \in 1..n |-> RSub(v[1][r], v[j + 1][r])]), b |-> v[1][r]]])
      pad(r, first) == IF n = 3 THEN r ELSE IF first THEN r \o VZero(3) ELSE VZero(3) \o r
      kin == [r \in 1..Len(Q.K.kin) |-> [a |-> pad(Q.K.Kin[r], TRUE), b |-> Q.K.kin[r]]]
      angr == IF n = 3 THEN <<>>
              ELSE [r \in 1..Len(Q.K.ang) |-> [a |-> pad(Q.K.Ang[r], FALSE), b |-> Q.K.ang[r]]]
  IN  TLCEval(FlattenSeqs(TLCEval([k \in 1..Len(pts[1]) |-> rows(vals(k))])) \o TLCEval(kin) \o TLCEval(angr))

(* stop as close as possible to c0; with momentum, mostly minimise             *)
(*   6/5 |xL|^2 - 9/5 l0.xL (its integral), the distance weighing 1e-4         *)
ZHess(Q) == IF Q.ang
  THEN TLCEval([i \in 1..6 |-> VScale(IF i <= 3 THEN RQ(1, 10000) ELSE RQ(6, 5), VUnit(6, i))])
  ELSE TLCEval([i \in 1..3 |-> VUnit(3, i)])
ZGrad(Q) == IF Q.ang
  THEN VScale(RQ(-1, 10000), Q.c0) \o VScale(RQ(-9, 10), Q.l0)
  ELSE VNeg(Q.c0)
(* the cost that is reported *)
ZCostOK(Q, z, cost, tol) ==
  IF Q.ang
  THEN LET xL == SubSeq(z, 4, 6)
           v == RMul(RQ(1, 5), RAdd(RMul(R(9), RSub(VDot(Q.l0, Q.l0), VDot(Q.l0, xL))), RMul(R(6), VDot(xL, xL))))
       IN  RLe(RAbs(RSub(cost, v)), RMul(tol, RAdd(R(1), RAdd(VDot(Q.l0, Q.l0), VDot(xL, xL)))))
  ELSE LET d == VSub(z, Q.c0)
       IN  RLe(R(0), cost) /\ RLe(RAbs(RSub(cost, RSqrt(VDot(d, d)))), RMul(tol, RAdd(R(1), VMaxAbs(z))))
=============================================================================
