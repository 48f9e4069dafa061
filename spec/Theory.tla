-------------------------------- MODULE Theory -------------------------------
(* The specification against itself.  The trace specifications judge recorded  *)
(* calls with operators that compute: control points from boundary values,     *)
(* restrictions, products, rows of an optimisation problem, costs.  Each claim *)
(* below says that such an operator agrees with the definition it stands for,  *)
(* or that a formulation has the guarantee it is used for (the continuous one  *)
(* is conservative, say).  TLC checks every claim on a grid of exact problems. *)
(* PROP selects the claims that the property at hand relies on.                *)
EXTENDS ComTraj, IOUtils

Z == INSTANCE ZeroStep
F == INSTANCE EndEff

Prop == IF "PROP" \in DOMAIN IOEnv THEN IOEnv.PROP ELSE "all"
Tier == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER ELSE "quick"
Deep == Tier # "quick"

VARIABLES claim, i
vars == <<claim, i>>

-----------------------------------------------------------------------------
(* the grid *)
V3(a, b, c) == <<R(a), R(b), R(c)>>
Vecs == TLCEval(<< V3(0, 0, 0), V3(1, -2, 3), V3(2, 1, -1), V3(-1, 0, 2), V3(3, 1, 1), V3(0, -3, 1), V3(-2, 2, 0) >>)
Vec(k) == Vecs[(k % 7) + 1]
Times == TLCEval(<< R(1), RQ(1, 2), R(3), RQ(5, 4) >>)
Params == TLCEval(<< R(0), RQ(1, 4), RQ(1, 3), RQ(2, 3), R(1) >>)
(* boundary values of instance k; curves that stop do so *)
Bc(flag, k) ==
  [c0 |-> Vec(k), dc0 |-> Vec(2 * k + 1), ddc0 |-> Vec(3 * k + 2), j0 |-> Vec(5 * k + 1),
   c1 |-> Vec(k + 3), dc1 |-> IF Stops(flag) THEN VZero(3) ELSE Vec(4 * k + 1), ddc1 |-> Vec(k + 5), j1 |-> Vec(2 * k + 4)]
Free(flag, k) == [j \in 1..NumFree(flag) |-> Vec(k + 2 * j)]
Pts(f, k, t) == ControlPoints(f, Bc(f, k), Times[t], Free(f, k))
Ks == IF Deep THEN 1..6 ELSE 2..3
Ts_ == IF Deep THEN 1..4 ELSE {2, 3}
Us == {<<a, b>> \in (1..5) \X (1..5) : a < b}
(* a contact: a few faces, and a box *)
Faces == TLCEval(<< V3(1, 0, 2) \o V3(0, 1, -1), V3(0, -1, 1) \o V3(1, 0, 1), V3(-1, 2, 1) \o V3(0, 0, 1), V3(0, 0, 1) \o V3(1, -1, 0) >>)
G == V3(0, 0, -10)
Contact(k) ==
  [H |-> SubSeq(Faces, 1 + (k % 3), 2 + (k % 3)), g |-> G, mass |-> R(k + 1),
   Kin |-> TLCEval(<<VUnit(3, 1), VNeg(VUnit(3, 2)), V3(1, 1, 1)>>), kin |-> V3(2, k, 3),
   Ang |-> TLCEval(<<VUnit(3, 1), V3(0, -1, 1)>>), ang |-> <<R(k), R(1)>>]
Prob(f, k, mode, m) == \* m: number of phases
  [flag |-> f, bc |-> Bc(f, k), Ts |-> [j \in 1..m |-> Times[((k + j) % 4) + 1]], mode |-> mode, dt |-> RQ(1, 3), ppp |-> 2,
   rep |-> "dd", solver |-> "qp", cost |-> <<"acc", "dist", "vel">>[(k % 3) + 1], accOn |-> k % 2 = 0, accMax |-> R(20 + k),
   reduce |-> IF k % 3 = 0 THEN RQ(1, 2) ELSE R(0), l0 |-> VZero(3), useAng |-> FALSE,
   contacts |-> [j \in 1..m |-> Contact(k + j)]]
SatRows(rows, x) == \A r \in 1..Len(rows) : RLe(VDot(rows[r].a, x), rows[r].b)
VEq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : REq(a[j], b[j])
PEq(P, Q) == Len(P) = Len(Q) /\ \A j \in 1..Len(P) : VEq(P[j], Q[j])
OneFree == ComFamilies \cup {F_j1}

-----------------------------------------------------------------------------
(* Claims.  Instances(c) is a set of tuples; Holds(c, i) is what is claimed.   *)

(* the curve of a family takes the imposed values, has its free points where   *)
(* they are said to be, and is the only curve of its degree that does          *)
EndsMet(f, k, t) ==
  LET P == TLCEval(Pts(f, k, t))
      bc == Bc(f, k)
      T == Times[t]
      n == Degree(f)
  IN  /\ Len(P) = n + 1
      /\ \A o \in InitOrders(f) : VEq(BDerivAt(P, T, o, R(0)), InitVal(bc, o))
      /\ \A o \in EndOrders(f) : VEq(BDerivAt(P, T, o, R(1)), EndVal(bc, o))
      /\ \A j \in 1..NumFree(f) : VEq(P[FirstFree(f) + j - 1], Free(f, k)[j])
      /\ Stops(f) => VEq(P[n + 1], Free(f, k)[1])
AffineInFree(f, k, t) == \* what the conformance checks assume when they probe
  LET bc == Bc(f, k)
      T == Times[t]
      at(x) == ControlPoints(f, bc, T, <<x>>)
      x == Vec(k + 3)
      p == TLCEval([j \in 1..4 |-> at(Probe[j])])
  IN  PEq(at(x), [r \in 1..Len(p[1]) |->
        VAdd(p[1][r], LinComb(x, [j \in 1..3 |-> VSub(p[j + 1][r], p[1][r])]))])

(* curves *)
Split(f, k, ab) ==
  LET P == TLCEval(Pts(f, k, 2))
      u0 == Params[ab[1]]
      u1 == Params[ab[2]]
      S == TLCEval(BSplit(P, u0, u1))
      w == RSub(u1, u0)
  IN  /\ \A m \in 1..5 : VEq(BEval(S, Params[m]), BEval(P, RAdd(u0, RMul(w, Params[m]))))
      \* the derivative of the restriction is the restriction of the derivative
      /\ PEq(BDeriv(S, RMul(w, R(3))), BSplit(BDeriv(P, R(3)), u0, u1))
      /\ VEq(S[1], BEval(P, u0)) /\ VEq(S[Len(S)], BEval(P, u1))
Product(f, k, h) ==
  LET P == TLCEval(Pts(f, k, 1))
      Q == TLCEval(Pts(h, k + 1, 1))
      X == TLCEval(BCross(P, Q))
  IN  /\ \A m \in 1..5 : VEq(BEval(X, Params[m]), VCross(BEval(P, Params[m]), BEval(Q, Params[m])))
      /\ \A m \in 1..5 : VEq(BEval(BElevate(P), Params[m]), BEval(P, Params[m]))
      /\ PEq(BReduce(BElevate(P)), P)
Leibniz(f, k, h) == \* (P x Q)' = P' x Q + P x Q'
  LET P == TLCEval(Pts(f, k, 1))
      Q == TLCEval(Pts(h, k + 1, 1))
      T == R(3)
  IN  PEq(BDeriv(BCross(P, Q), T), BAdd(BCross(BDeriv(P, T), Q), BCross(P, BDeriv(Q, T))))
SquareInt(f, k, t) == \* a polynomial in Bernstein form integrates to the mean of its coefficients
  LET P == TLCEval(Pts(f, k, t))
      n == Deg(P)
      lo(s) == IF s - n > 0 THEN s - n ELSE 0
      hi(s) == IF s < n THEN s ELSE n
      sq == [s \in 0..(2 * n) |-> VSum([j \in 1..(hi(s) - lo(s) + 1) |->
               LET a == lo(s) + j - 1
               IN  RMul(RQ(C(n, a) * C(n, s - a), C(2 * n, s)), VDot(P[a + 1], P[s - a + 1]))])]
  IN  REq(BSqInt(P, Times[t]), RMul(RDiv(Times[t], R(2 * n + 1)), VSum([s \in 1..(2 * n + 1) |-> sq[s - 1]])))
(* a curve is where its control points are *)
Hull(f, k, ab) ==
  LET P == TLCEval(BSplit(Pts(f, k, 2), Params[ab[1]], Params[ab[2]]))
  IN  \A d \in 1..3 : \A m \in 1..5 :
        LET lo == VMin([j \in 1..Len(P) |-> P[j][d]])
        IN  RLe(lo, BEval(P, Params[m])[d])

(* the wrench *)
WrenchCurve(f, k, t) ==
  LET P == TLCEval(Pts(f, k, t))
      D == TLCEval(BDerivK(P, Times[t], 2))
      W == TLCEval(WCurve([flag |-> f], P, D, G))
      Rd == TLCEval(BReduceTo(W, WDegree(f)))
  IN  /\ \A m \in 1..5 : VEq(BEval(W, Params[m]), Wrench(BEval(P, Params[m]), BEval(D, Params[m]), G))
      \* the curve really has the degree it is written in
      /\ PEq(BElevateTo(Rd, Deg(W)), W)

(* samples *)
Schedules(k, m, p) ==
  LET Ts == [j \in 1..m |-> Times[((k + j) % 4) + 1]]
      dt == <<RQ(1, 3), RQ(1, 4), R(2)>>[(k % 3) + 1]
      Fx == FixedSchedule(Ts, p)
      St == StepSchedule(Ts, dt)
      st == Starts(Ts)
      rising(S) == \A q \in 1..(Len(S) - 1) : RLe(S[q][1], S[q + 1][1]) /\ S[q][2] <= S[q + 1][2]
      inside(S) == \A q \in 1..Len(S) : RLe(st[S[q][2]], S[q][1]) /\ RLe(S[q][1], st[S[q][2] + 1])
      ends(S) == \A j \in 1..m : \E q \in 1..Len(S) : S[q][2] = j /\ REq(S[q][1], st[j + 1])
      switch(S) == \A j \in 1..(m - 1) : \E q \in 1..Len(S) : REq(S[q][1], st[j + 1]) /\ PhasesAt(S, q) = {j, j + 1}
      dense(S, gap) == \A q \in 1..(Len(S) - 1) : RLe(RSub(S[q + 1][1], S[q][1]), gap)
  IN  /\ Len(Fx) = 1 + m * p
      /\ \A S \in {Fx, St} : /\ rising(S) /\ inside(S) /\ ends(S) /\ switch(S)
                             /\ REq(S[1][1], R(0)) /\ S[1][2] = 1
                             /\ REq(S[Len(S)][1], Total(Ts))
      /\ dense(St, dt)

(* the rows of a problem say what the constraints say, at every point: a row   *)
(* is missed by x by exactly as much as the constraint it stands for           *)
Candidates(k) == {Vec(k), Vec(k + 2), VScale(RQ(1, 2), Vec(k + 4)), VScale(RQ(-1, 4), Vec(k + 1)), V3(1, 1, 1)}
DiscMeaning(f, k, m) ==
  LET Q == Prob(f, k, <<"disc", "fixed">>[(k % 2) + 1], m)
      rows == TLCEval(DiscRows(Q))
      S == Sched(Q)
      T == Dur(Q)
      \* by how much the constraints are met (or not) along the curve of x
      room(x) ==
        LET P == TLCEval(Curve(Q, x))
            D == TLCEval(Curve2(Q, x))
            at(q) ==
              LET u == RDiv(S[q][1], T)
                  c == BEval(P, u)
                  dd == BEval(D, u)
                  one(ph) == LET K == Q.contacts[ph]
                             IN  RMin(RSub(VMin(MV(K.H, Wrench(c, dd, G))), Margin(Q)), VMin(VSub(K.kin, MV(K.Kin, c))))
                  phs == PhasesAt(S, q)
                  all == TLCEval([ph \in phs |-> one(ph)])
                  acc == RSub(Q.accMax, VMaxAbs(dd))
                  ok == \A ph \in phs : /\ StableAt(Q.contacts[ph], Wrench(c, dd, G), Margin(Q), R(0), R(0))
                                        /\ ReachAt(Q.contacts[ph], c, R(0), R(0))
                  least == CHOOSE v \in {all[ph] : ph \in phs} : \A ph \in phs : RLe(v, all[ph])
              IN  [v |-> IF Q.accOn THEN RMin(least, acc) ELSE least, ok |-> ok /\ (Q.accOn => AccAt(dd, Q.accMax, R(0), R(0)))]
            each == TLCEval([q \in 1..Len(S) |-> at(q)])
        IN  [v |-> VMin([q \in 1..Len(S) |-> each[q].v]), ok |-> \A q \in 1..Len(S) : each[q].ok]
      slack(x) == VMin([r \in 1..Len(rows) |-> RSub(rows[r].b, VDot(rows[r].a, x))])
  IN  \A x \in Candidates(k) :
        LET m_ == room(x)
        IN  REq(slack(x), m_.v) /\ SatRows(rows, x) = m_.ok
(* what satisfies the rows of the continuous problem is right at every instant *)
Conservative(f, k, m) ==
  LET Q == Prob(f, k, "cont", m)
      D == [Q EXCEPT !.mode = "fixed", !.ppp = 5, !.accOn = TRUE]
      cr == TLCEval(ContRows(Q))
      dr == TLCEval(DiscRows(D))
      \* rows are affine: lowering every b by s asks for more; choose s so that x just passes
      need(rows, x) == VMin([r \in 1..Len(rows) |-> RSub(rows[r].b, VDot(rows[r].a, x))])
  IN  \A x \in Candidates(k) : RLe(need(cr, x), need(dr, x))
(* the objective *)
CostMeaning(f, k, m) ==
  LET Q == Prob(f, k, "disc", m)
      T == Dur(Q)
      S == Sched(Q)
      co == TLCEval(CostOf(Q))
      sq(v) == RMul(RQ(1, 2), VDot(v, v))
      meaning(x) ==
        CASE Q.cost = "dist" -> sq(VSub(x, VScale(RQ(1, 2), VAdd(Q.bc.c0, Q.bc.c1))))
          [] Q.cost = "vel" -> sq(VSub(BDerivAt(Curve(Q, x), T, 1, R(1)), Q.bc.dc1))
          [] OTHER -> LET D == TLCEval(Curve2(Q, x)) IN VSum([q \in 1..Len(S) |-> sq(BEval(D, RDiv(S[q][1], T)))])
  IN  \A x, y \in Candidates(k) :
        REq(RSub(CostAt(Q, co, x), CostAt(Q, co, y)), RSub(meaning(x), meaning(y)))

(* zero step *)
ZQ(k, ang, steps) == [c0 |-> Vec(k), dc0 |-> Vec(k + 1), l0 |-> Vec(2 * k), T |-> Times[(k % 4) + 1], ang |-> ang,
                      K |-> Contact(k), steps |-> steps]
ZCand(k, ang) == IF ang THEN {Vec(k) \o Vec(k + 1), Vec(k + 3) \o Vec(k + 2), VZero(6)} ELSE {Vec(k), Vec(k + 3), VZero(3)}
ZDemand(k, ang, steps) ==
  LET Q == ZQ(k, ang, steps)
  IN  \A z \in ZCand(k, ang) :
        LET P == TLCEval(Z!ZCurve(Q, z))
            D == TLCEval(Z!Demand(Q, z))
            L == TLCEval(Z!ZMomentum(Q, z))
            W(u) == VAdd(VScale(Q.K.mass, Wrench(BEval(P, u), BDerivAt(P, Q.T, 2, u), G)), VZero(3) \o BDerivAt(L, Q.T, 1, u))
            rows == TLCEval(Z!ZRows(Q))
            x == SubSeq(z, 1, 3)
            pts == IF steps = 0 THEN D ELSE [q \in 1..(steps + 1) |-> W(RQ(q - 1, steps))]
            ok == /\ \A q \in 1..Len(pts) : StableAt(Q.K, pts[q], R(0), R(0), R(0))
                  /\ ReachAt(Q.K, x, R(0), R(0))
                  /\ ang => VLe(MV(Q.K.Ang, SubSeq(z, 4, 6)), Q.K.ang)
        IN  /\ \A m \in 1..5 : VEq(BEval(D, Params[m]), W(Params[m]))
            \* it starts from the given state, and stops
            /\ VEq(P[1], Q.c0) /\ VEq(BDerivAt(P, Q.T, 1, R(0)), Q.dc0)
            /\ VEq(BEval(P, R(1)), x) /\ VEq(BDerivAt(P, Q.T, 1, R(1)), VZero(3))
            /\ ang => /\ VEq(BEval(L, R(0)), Q.l0) /\ VEq(BEval(L, R(1)), VZero(3)) /\ VEq(BDerivAt(L, Q.T, 1, R(1)), VZero(3))
            /\ SatRows(rows, z) = ok
ZCost(k) == \* the documented cost is the integral of |L'|^2, times the duration
  LET Q == ZQ(k, TRUE, 0)
  IN  \A z \in ZCand(k, TRUE) :
        LET v == RMul(Q.T, BSqInt(BDeriv(Z!ZMomentum(Q, z), Q.T), Q.T))
            obj(y) == QuadCost(Z!ZHess(Q), Z!ZGrad(Q), y)
        IN  /\ Z!ZCostOK(Q, z, v, R(0))
            \* without the weight of the distance, the objective is half the cost, up to a constant
            /\ LET y == VZero(3) \o SubSeq(z, 4, 6)
               IN  REq(RMul(R(2), RSub(obj(y), obj(VZero(6)))),
                       RSub(v, RMul(RQ(9, 5), VDot(Q.l0, Q.l0))))

(* end effector *)
FQ(f, k) == [flag |-> f, bc |-> Bc(f, k), T |-> Times[(k % 4) + 1], w |-> RQ(1, 3), path |-> [s \in 1..4 |-> Vec(k + s)]]
FFree(f, k) == FlattenSeqs(Free(f, k))
EEMeaning(f, k) ==
  LET q == FQ(f, k)
      n == 3 * NumFree(f)
      P(z) == TLCEval(F!EECurve(q, z))
      half(v) == RMul(RQ(1, 2), VDot(v, v))
      dist(z) == VSum([s \in 1..4 |-> half(VSub(BEval(P(z), RQ(s - 1, 3)), q.path[s]))])
      der(z, o) == VSum([s \in 1..4 |-> half(BDerivAt(P(z), q.T, o, RQ(s - 1, 3)))])
      smooth(z) == RMul(RDiv(R(2 * Degree(f) - 1), RMul(R(2), q.T)), BSqInt(BDeriv(P(z), q.T), q.T))
      same(Q, m(_)) ==
        LET a == FFree(f, k)
            b == VZero(n)
        IN  REq(RSub(QuadCost(Q.H, Q.g, a), QuadCost(Q.H, Q.g, b)), RSub(m(a), m(b)))
      acc(z) == der(z, 2)
      jrk(z) == der(z, 3)
      rows == TLCEval(F!EERows(q))
      z == FFree(f, k)
      zmin == RMin(q.bc.c0[3], q.bc.c1[3])
      room(y) == \* to the ground, and to the limits where the curve can be influenced
        LET ds == TLCEval([o \in 1..3 |->
                    LET D == TLCEval(BDerivK(P(y), q.T, o))
                        D0 == BDerivK(P(VZero(n)), q.T, o)
                        D1 == BDerivK(P([c \in 1..n |-> R((c * c * c * c * 7) % 101)]), q.T, o)
                    IN  [j \in 1..Len(D) |-> IF VEq(D1[j], D0[j]) THEN F!Limit ELSE RSub(F!Limit, VMaxAbs(D[j]))]])
        IN  VMin([j \in 1..NumFree(f) |-> RSub(y[3 * j], zmin)] \o ds[1] \o ds[2] \o ds[3])
      slack(y) == VMin([r \in 1..Len(rows) |-> RSub(rows[r].b, VDot(rows[r].a, y))])
  IN  /\ same(F!DistQuad(q, q.path), dist)
      /\ same(F!DerivQuad(q, 2, 4), acc)
      /\ same(F!DerivQuad(q, 3, 4), jrk)
      /\ same(F!SmoothQuad(q), smooth)
      /\ \A y \in {z, VZero(n), VScale(R(1000), z), VScale(R(-1), z)} :
           /\ REq(slack(y), room(y))
           /\ \A j \in 1..NumFree(f) :
                LET r == rows[Len(rows) - NumFree(f) + j] IN REq(RSub(r.b, VDot(r.a, y)), RSub(y[3 * j], zmin))

-----------------------------------------------------------------------------
Instances(c) ==
  CASE c = "ends" -> Families \X Ks \X Ts_
    [] c = "affine" -> OneFree \X Ks \X Ts_
    [] c = "split" -> {F_c0_dc0_c1, F_c0_dc0_dc1, F_c0_dc0_ddc0_ddc1_dc1_c1, F_j1} \X Ks \X Us
    [] c = "hull" -> {F_c0_dc0_dc1_c1, F_j1, F_x5} \X Ks \X Us
    [] c \in {"product", "leibniz"} -> {F_c0_dc0_c1, F_c0_dc0_ddc0, F_j1} \X Ks \X {F_c0_dc0_dc1_c1, F_c0_dc0_ddc0_ddc1_dc1_c1}
    [] c = "square" -> Families \X Ks \X Ts_
    [] c = "wrench" -> OneFree \X Ks \X Ts_
    [] c = "schedules" -> (1..12) \X (1..4) \X (1..5)
    [] c \in {"rows", "conservative"} -> (IF Deep THEN OneFree ELSE {F_c0_dc0_dc1_c1, F_c0_dc0_dc1, F_c0_dc0_ddc0_dc1_c1}) \X Ks \X (1..2)
    [] c = "cost" -> {F_c0_dc0_c1, F_c0_dc0_ddc0, F_c0_dc0_ddc0_c1} \X (1..6) \X (1..2)
    [] c = "zdemand" -> (1..(IF Deep THEN 8 ELSE 3)) \X BOOLEAN \X {0, 1, 3}
    [] c = "zcost" -> {<<k>> : k \in 1..8}
    [] c = "endeff" -> JerkFamilies \X (IF Deep THEN 1..6 ELSE {1, 4})
Holds(c, t) ==
  CASE c = "ends" -> EndsMet(t[1], t[2], t[3])
    [] c = "affine" -> AffineInFree(t[1], t[2], t[3])
    [] c = "split" -> Split(t[1], t[2], t[3])
    [] c = "hull" -> Hull(t[1], t[2], t[3])
    [] c = "product" -> Product(t[1], t[2], t[3])
    [] c = "leibniz" -> Leibniz(t[1], t[2], t[3])
    [] c = "square" -> SquareInt(t[1], t[2], t[3])
    [] c = "wrench" -> WrenchCurve(t[1], t[2], t[3])
    [] c = "schedules" -> Schedules(t[1], t[2], t[3])
    [] c = "rows" -> DiscMeaning(t[1], t[2], t[3])
    [] c = "conservative" -> Conservative(t[1], t[2], t[3])
    [] c = "cost" -> CostMeaning(t[1], t[2], t[3])
    [] c = "zdemand" -> ZDemand(t[1], t[2], t[3])
    [] c = "zcost" -> ZCost(t[1])
    [] c = "endeff" -> EEMeaning(t[1], t[2])
AllClaims == {"ends", "affine", "split", "hull", "product", "leibniz", "square", "wrench", "schedules", "rows", "conservative",
              "cost", "zdemand", "zcost", "endeff"}
Claims ==
  CASE Prop = "C01" -> {"ends"}
    [] Prop \in {"C02", "C03", "C04", "C06"} -> {"schedules", "rows", "affine", "wrench"}
    [] Prop = "C05" -> {"split", "hull", "product", "wrench", "conservative"}
    [] Prop \in {"C07", "C08"} -> {"cost", "rows", "conservative", "schedules", "ends"}
    [] Prop \in {"C11", "C12"} -> {"zdemand", "zcost", "product"}
    [] Prop = "C13" -> {"endeff", "ends", "square"}
    [] Prop = "C14" -> {"ends", "affine", "square", "leibniz"}
    [] Prop = "C15" -> {"schedules"}
    [] Prop = "C18" -> {"wrench", "product", "leibniz", "affine"}
    [] OTHER -> AllClaims

Init == claim \in Claims /\ i = <<>>
Next == i = <<>> /\ i' \in Instances(claim) /\ UNCHANGED claim
Spec == Init /\ [][Next]_vars
TypeOK == i = <<>> \/ i \in Instances(claim)
Agreed == i # <<>> => Holds(claim, i)
=============================================================================
