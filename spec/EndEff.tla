------------------------------- MODULE EndEff -------------------------------
(* End-effector trajectories: a curve with three derivatives imposed at both   *)
(* ends and n free control points in between, that stay above the lower of the *)
(* two ends, whose velocity, acceleration and jerk stay bounded, and that is   *)
(* as smooth as possible and as close as possible to a given path.             *)
EXTENDS Families, Oracle

Limit == R(10000)
(* z is the vector of the 3n free coordinates *)
Points(z) == [j \in 1..(Len(z) \div 3) |-> <<z[3 * j - 2], z[3 * j - 1], z[3 * j]>>]
EECurve(q, z) == ControlPoints(q.flag, q.bc, q.T, Points(z))
NV(q) == 3 * NumFree(q.flag)
NF(q) == NumFree(q.flag)
(* The curve is affine in the free points, and the three axes are alike: it is *)
(* P0 + sum_j U_j x_j, with U_j the scalar curve that free point j weighs.     *)
P0(q) == EECurve(q, VZero(NV(q)))
Influence(q, p0, j) ==
  LET p == EECurve(q, VUnit(NV(q), 3 * j - 2))
  IN  TLCEval([i \in 1..Len(p) |-> <<RSub(p[i][1], p0[i][1])>>])
Influences(q) == LET p0 == TLCEval(P0(q)) IN TLCEval([j \in 1..NF(q) |-> Influence(q, p0, j)])

(* k (x) unit a: the coefficients in z of a quantity that is sum_j k_j x_j[a] *)
Spread(k, a) == TLCEval([c \in 1..(3 * Len(k)) |->
                  IF (c - 1) % 3 = a - 1 THEN k[((c - 1) \div 3) + 1] ELSE R(0)])
(* the control points of derivative o as affine rows, only those that depend   *)
(* on the free points: c constant, m coefficients                              *)
DerivRows(q, p0, us, o) ==
  LET d0 == BDerivK(p0, q.T, o)
      du == TLCEval([j \in 1..Len(us) |-> BDerivK(us[j], q.T, o)])
      ks(i) == TLCEval([j \in 1..Len(us) |-> du[j][i][1]])
      row(i, a) == [c |-> d0[i][a], m |-> Spread(ks(i), a)]
  IN  FlattenSeqs(TLCEval([i \in 1..Len(d0) |->
        IF REq(VMaxAbs(ks(i)), R(0)) THEN <<>> ELSE TLCEval([a \in 1..3 |-> row(i, a)])]))
EERows(q) ==
  LET p0 == TLCEval(P0(q))
      us == TLCEval(Influences(q))
      dr == TLCEval(FlattenSeqs(TLCEval([o \in 1..3 |-> TLCEval(DerivRows(q, p0, us, o))])))
      up == TLCEval([i \in 1..Len(dr) |-> [a |-> dr[i].m, b |-> RSub(Limit, dr[i].c)]])
      lo == TLCEval([i \in 1..Len(dr) |-> [a |-> VNeg(dr[i].m), b |-> RAdd(Limit, dr[i].c)]])
      zmin == RMin(q.bc.c0[3], q.bc.c1[3])
      zs == TLCEval([j \in 1..NF(q) |-> [a |-> VNeg(VUnit(NV(q), 3 * j)), b |-> RNeg(zmin)]])
  IN  TLCEval(up \o lo \o zs)

(* Gram matrix and linear term of  1/2 sum_s w_s |v0_s + sum_j u_js x_j|^2:    *)
(* v0 a sequence of vectors, us one sequence of scalars per free point         *)
Blocks(h, g) == \* h: n x n scalars, g: n vectors
  [H |-> TLCEval([i \in 1..(3 * Len(h)) |-> Spread(h[((i - 1) \div 3) + 1], ((i - 1) % 3) + 1)]),
   g |-> FlattenSeqs(g)]
Quadratic(v0, us) ==
  LET n == Len(us)
  IN  Blocks(TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> VDot(us[i], us[j])])]),
             TLCEval([i \in 1..n |-> LinComb(us[i], v0)]))
(* values of derivative o at m regularly spaced instants *)
Samples(P, T, o, m) ==
  LET D == BDerivK(P, T, o)
  IN  TLCEval([s \in 1..m |-> LinComb(BernRow(Deg(D), RQ(s - 1, m - 1)), D)])
Scalars(P, T, o, m) == LET v == Samples(P, T, o, m) IN TLCEval([s \in 1..m |-> v[s][1]])
DistQuad(q, path) ==
  LET m == Len(path)
      p == Samples(P0(q), q.T, 0, m)
      us == Influences(q)
  IN  Quadratic(TLCEval([s \in 1..m |-> VSub(p[s], path[s])]),
                TLCEval([j \in 1..Len(us) |-> Scalars(us[j], q.T, 0, m)]))
DerivQuad(q, o, m) ==
  LET us == Influences(q)
  IN  Quadratic(Samples(P0(q), q.T, o, m), TLCEval([j \in 1..Len(us) |-> Scalars(us[j], q.T, o, m)]))
(* The curve of degree four that leaves the first point with the velocity and  *)
(* the acceleration of that end and no jerk, and goes to the last point; and   *)
(* its mirror image, that reaches the last point.  What each must be worth, as *)
(* <<derivative, instant, value>>.                                             *)
LiftOff(q) == <<<<0, R(0), q.bc.c0>>, <<1, R(0), q.bc.dc0>>, <<2, R(0), q.bc.ddc0>>, <<3, R(0), VZero(3)>>,
                <<0, R(1), q.bc.c1>>>>
Landing(q) == <<<<0, R(0), q.bc.c0>>, <<3, R(1), VZero(3)>>, <<2, R(1), q.bc.ddc1>>, <<1, R(1), q.bc.dc1>>,
                <<0, R(1), q.bc.c1>>>>
(* integral of the squared velocity: exact Gram matrix of the Bernstein basis  *)
SmoothQuad(q) ==
  LET n == Degree(q.flag) - 1
      gram == TLCEval([i \in 1..(n + 1) |-> TLCEval([j \in 1..(n + 1) |->
                RQ(C(n, i - 1) * C(n, j - 1), C(2 * n, i + j - 2))])])
      d0 == BDeriv(P0(q), q.T)
      us == TLCEval([j \in 1..NF(q) |-> BDeriv(Influences(q)[j], q.T)])
      ds == TLCEval([j \in 1..NF(q) |-> TLCEval([s \in 1..(n + 1) |-> us[j][s][1]])])
      gd == TLCEval([j \in 1..NF(q) |-> MV(gram, ds[j])]) \* the Gram matrix is symmetric
  IN  Blocks(TLCEval([i \in 1..NF(q) |-> TLCEval([j \in 1..NF(q) |-> VDot(gd[i], ds[j])])]),
             TLCEval([i \in 1..NF(q) |-> LinComb(gd[i], d0)]))
Frob(H) == RSqrt(VSum([i \in 1..Len(H) |-> VDot(H[i], H[i])]))
ScaleQuad(k, Q) == [H |-> TLCEval([i \in 1..Len(Q.H) |-> VScale(k, Q.H[i])]), g |-> TLCEval(VScale(k, Q.g))]
AddQuad(A, B) == [H |-> TLCEval([i \in 1..Len(A.H) |-> VAdd(A.H[i], B.H[i])]), g |-> TLCEval(VAdd(A.g, B.g))]
Unit(Q) == ScaleQuad(RDiv(R(1), Frob(Q.H)), Q)
(* the objective: both terms are normalised by the norm of their Hessian *)
EEObjective(q, w, path) ==
  LET s == Unit(SmoothQuad(q))
  IN  IF REq(w, R(0)) THEN s
      ELSE AddQuad(ScaleQuad(RSub(R(1), w), s), ScaleQuad(w, Unit(DistQuad(q, path))))
=============================================================================
