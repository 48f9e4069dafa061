------------------------------- MODULE WpTrace -------------------------------
(* Conformance of the waypoint API with Families/Bezier: whatever it says      *)
(* about a trajectory family - constant control points, the curve and its      *)
(* derivatives at a time as expressions of the free points, control points of  *)
(* the derivatives, of the wrench W, the velocity cost - has to be what the    *)
(* meaning of the flags implies.  All of it is affine in the free points, so   *)
(* it is determined by the values at 0 and at the unit points.                 *)
(* A behaviour visits the events, and inside an event the sampled instants.    *)
EXTENDS Centroidal, TraceBase

VARIABLES l, k, bad
vars == <<l, k, bad>>

Tol == RQ(1, 1000000000)
E == [e \in 1..Len(Trace) |->
  IF Crashed(e) THEN <<>>
  ELSE LET ev == Trace[e]
           bc == ParseBc(ev.bc)
           T == R(ev.T)
           n == NumFree(ev.flag)
           z == [i \in 1..n |-> VZero(3)]
           P(xs) == ControlPoints(ev.flag, bc, T, xs)
       IN  [bc |-> bc, T |-> T, g |-> TLCEval(R(ev.g)), x |-> TLCEval(R(ev.x)), n |-> n,
            P0 |-> TLCEval(P(z)),
            \* P1[j][d]: control points for the d-th unit vector as j-th free point
            P1 |-> TLCEval([j \in 1..n |-> [d \in 1..3 |-> P([z EXCEPT ![j] = VUnit(3, d)])]])]]

Supports(what, flag) ==
  CASE what \in {"c", "ddc", "cs", "ddcs", "w"} -> flag \in ComFamilies \cup {F_j1}
    [] what = "fv" -> flag \in ComFamilies
    [] what \in {"vel", "acc", "jerk", "velc", "wc", "wdc", "wddc", "wjc"} -> flag \in JerkFamilies
    [] what \in {"pi", "sym"} -> flag \in Families
    [] what = "curve" -> flag \in Families /\ NumFree(flag) = 1
    [] OTHER -> TRUE
(* the expressions that start from the boundary conditions refuse a curve that *)
(* should stop with a velocity                                                 *)
Refused(e) ==
  Stops(Trace[e].flag) /\ ~REq(VMaxAbs(E[e].bc.dc1), R(0))
Throws(e, what) == ~Supports(what, Trace[e].flag) \/ (Refused(e) /\ what \in {"pi", "sym", "w", "curve"})

(* size of the numbers involved, for the rounding errors of order o *)
Scale(e, o) ==
  LET m == RMax(R(1), VMaxAbs([i \in 1..Len(E[e].P0) |-> VMaxAbs(E[e].P0[i])]))
      b == RDiv(R(2 * Degree(Trace[e].flag)), E[e].T)
  IN  RMul(m, RPow(b, o))
Near(a, b, s) == Len(a) = Len(b) /\ (Len(a) = 0 \/ RLe(VMaxAbs(VSub(a, b)), RMul(Tol, RAdd(R(1), s))))

(* f maps control points to a vector; w = [A, b] must be its expression *)
SameExpr(e, f(_), w, s) ==
  LET f0 == TLCEval(f(E[e].P0))
      A == R(w.A)
  IN  /\ Near(R(w.b), f0, s)
      /\ Len(A) = Len(f0)
      /\ \A r \in 1..Len(A) : Len(A[r]) = 3 * E[e].n
      /\ \A j \in 1..E[e].n : \A d \in 1..3 :
           Near([r \in 1..Len(A) |-> A[r][3 * (j - 1) + d]], VSub(f(E[e].P1[j][d]), f0), s)
(* scalar form: a x + b *)
SameScalar(e, f(_), w, s) ==
  LET f0 == TLCEval(f(E[e].P0))
  IN  /\ Near(R(w.b), f0, s)
      /\ \A d \in 1..3 : Near(VScale(R(w.a), VUnit(3, d)), VSub(f(E[e].P1[1][d]), f0), s)

Order(o) == <<"position", "velocity", "acceleration", "jerk">>[o + 1]
WCps(e, P) == \* control points of W
  LET T == E[e].T
      D == BSubConst(BDerivK(P, T, 2), E[e].g)
  IN  BCross(P, D)
RECURSIVE BReduceTo(_, _)
BReduceTo(P, n) == IF Deg(P) <= n THEN P ELSE BReduceTo(BReduce(P), n)

AtInstant(e, i) ==
  LET a == Trace[e].at[i]
      fl == Trace[e].flag
      u == R(a.u)
      T == E[e].T
      pos(P) == BEval(P, u)
      vel(P) == BDerivAt(P, T, 1, u)
      acc(P) == BDerivAt(P, T, 2, u)
      jrk(P) == BDerivAt(P, T, 3, u)
      t == " at instant " \o ToString(i)
  IN  IF Prop = "C18" THEN {}
      ELSE UNION {
        IF a.c.throws THEN {} ELSE Unless(SameScalar(e, pos, a.c.v, Scale(e, 0)), "curve expression" \o t),
        IF a.ddc.throws THEN {} ELSE Unless(SameScalar(e, acc, a.ddc.v, Scale(e, 2)), "acceleration expression" \o t),
        IF a.cs.throws THEN {} ELSE Unless(SameScalar(e, pos, a.cs.v, Scale(e, 0)), "curve expression in a list of times" \o t),
        IF a.ddcs.throws THEN {} ELSE Unless(SameScalar(e, acc, a.ddcs.v, Scale(e, 2)), "acceleration expression in a list of times" \o t),
        IF a.wc.throws THEN {} ELSE Unless(SameExpr(e, pos, a.wc.v, Scale(e, 0)), "curve waypoint expression" \o t),
        IF a.wdc.throws THEN {} ELSE Unless(SameExpr(e, vel, a.wdc.v, Scale(e, 1)), "velocity waypoint expression" \o t),
        IF a.wddc.throws THEN {} ELSE Unless(SameExpr(e, acc, a.wddc.v, Scale(e, 2)), "acceleration waypoint expression" \o t),
        IF a.wjc.throws THEN {} ELSE Unless(SameExpr(e, jrk, a.wjc.v, Scale(e, 3)), "jerk waypoint expression" \o t),
        UNION {Unless(a[w].throws = ~Supports(w, fl), "support of " \o w) : w \in {"c", "ddc", "cs", "ddcs", "wc", "wdc", "wddc", "wjc"}} }

(* the constant control points, with 0 where the free points go.  (A curve     *)
(* that stops may list its repeated free point once or twice.)                 *)
SamePoints(e, v) ==
  LET P == E[e].P0
  IN  (Len(v) = Len(P) \/ (Stops(Trace[e].flag) /\ Len(v) = Len(P) - 1))
      /\ \A i \in 1..Len(v) : Near(R(v[i]), P[i], Scale(e, 0))
SameCps(e, o, v) ==
  LET f(P) == BDerivK(P, E[e].T, o)
      n == Len(f(E[e].P0))
  IN  Len(v) = n /\ \A i \in 1..n : LET fi(P) == f(P)[i] IN SameExpr(e, fi, v[i], Scale(e, o))
SymOK(e, v) == SameCps(e, 0, v)
WrenchOK(e, v) ==
  LET \* W = [c'' ; c x (c'' - g)], gravity left out of the linear part
      lin(P) == BElevateTo(BDerivK(P, E[e].T, 2), 2 * Deg(P) - 2)
      full(P) == TLCEval([i \in 1..(2 * Deg(P) - 1) |-> lin(P)[i] \o WCps(e, P)[i]])
      deg == Len(v) - 1
      f(P) == BReduceTo(full(P), deg)
      vals == [p0 |-> f(E[e].P0), p1 |-> [d \in 1..3 |-> f(E[e].P1[1][d])]]
      s == RMul(Scale(e, 0), RMul(RAdd(R(10), Scale(e, 2)), R(Deg(E[e].P0))))
  IN  /\ deg <= 2 * Degree(Trace[e].flag) - 2
      /\ deg >= 2 * Degree(Trace[e].flag) - 3
      /\ \A i \in 1..Len(v) :
            /\ Near(R(v[i].b), vals.p0[i], s)
            /\ Len(v[i].A) = 6
            /\ \A d \in 1..3 : Near([r \in 1..6 |-> R(v[i].A[r][d])], VSub(vals.p1[d][i], vals.p0[i]), s)
      \* the curve really has that degree
      /\ (deg = 2 * Degree(Trace[e].flag) - 2
          \/ \A q \in {E[e].P0} \cup {E[e].P1[1][d] : d \in 1..3} :
                Near(BElevate(f(q))[1], full(q)[1], s) /\ \A i \in 1..Len(full(q)) : Near(BElevateTo(f(q), 2 * Degree(Trace[e].flag) - 2)[i], full(q)[i], s))

Inner(D1, D2, T) ==
  LET n == Deg(D1)
      w(i, j) == RQ(C(n, i) * C(n, j), C(2 * n, i + j))
  IN  RMul(RDiv(T, R(2 * n + 1)),
        VSum(FlattenSeqs([i \in 1..(n + 1) |-> [j \in 1..(n + 1) |->
               RMul(w(i - 1, j - 1), VDot(D1[i], D2[j]))]])))
VelCostOK(e, v) == \* proportional to the integral of the squared velocity
  LET T == E[e].T
      n == E[e].n
      D0 == BDeriv(E[e].P0, T)
      Dj == TLCEval([j \in 1..n |-> [d \in 1..3 |->
               LET D == BDeriv(E[e].P1[j][d], T) IN TLCEval([i \in 1..Len(D) |-> VSub(D[i], D0[i])])]])
      h == TLCEval([i \in 1..n |-> [j \in 1..n |-> Inner(Dj[i][1], Dj[j][1], T)]])
      g == TLCEval([i \in 1..(3 * n) |-> Inner(D0, Dj[(i - 1) \div 3 + 1][((i - 1) % 3) + 1], T)])
      H == R(v.H)
      G == R(v.g)
      s == RDiv(H[1][1], h[1][1])
      eps == RQ(1, 100000)
  IN  /\ Len(H) = 3 * n /\ Len(G) = 3 * n
      /\ RLt(R(0), s)
      /\ \A i \in 1..(3 * n) : \A j \in 1..(3 * n) :
            LET want == IF (i - 1) % 3 = (j - 1) % 3 THEN RMul(s, h[(i - 1) \div 3 + 1][(j - 1) \div 3 + 1]) ELSE R(0)
            IN  RLe(RAbs(RSub(H[i][j], want)), RMul(eps, H[1][1]))
      /\ \A i \in 1..(3 * n) : RLe(RAbs(RSub(G[i], RMul(s, g[i]))), RMul(eps, RAdd(R(1), VMaxAbs(G))))

Whole(e) ==
  LET ev == Trace[e]
      fl == ev.flag
      T == E[e].T
      fvel(P) == BDerivAt(P, T, 1, R(1))
      curve == ControlPoints(fl, E[e].bc, T, <<E[e].x>>)
      \* the final velocity of a curve that stops is known without its control points
      supp(w) == Unless(ev[w].throws = Throws(e, w) \/ (w = "fv" /\ Supports(w, fl) /\ Refused(e)), "support of " \o w)
  IN  IF Prop = "C18"
      THEN UNION {supp("w"), IF ev.w.throws THEN {} ELSE Unless(WrenchOK(e, ev.w.v), "wrench expression")}
      ELSE UNION {
        UNION {supp(w) : w \in {"pi", "sym", "vel", "acc", "jerk", "velc", "curve", "fv"}},
        Unless(~ev.dim.throws /\ ev.dim.v = 3 * NumFree(fl), "number of variables"),
        IF ev.pi.throws THEN {} ELSE Unless(SamePoints(e, ev.pi.v), "constant waypoints"),
        IF ev.sym.throws THEN {} ELSE Unless(SymOK(e, ev.sym.v), "symbolic waypoints"),
        IF ev.vel.throws THEN {} ELSE Unless(SameCps(e, 1, ev.vel.v), "velocity control points"),
        IF ev.acc.throws THEN {} ELSE Unless(SameCps(e, 2, ev.acc.v), "acceleration control points"),
        IF ev.jerk.throws THEN {} ELSE Unless(SameCps(e, 3, ev.jerk.v), "jerk control points"),
        IF ev.fv.throws THEN {} ELSE Unless(SameScalar(e, fvel, ev.fv.v, Scale(e, 1)), "final velocity expression"),
        IF ev.velc.throws THEN {} ELSE Unless(VelCostOK(e, ev.velc.v), "velocity cost"),
        IF ev.curve.throws THEN {} ELSE
          Unless(Len(ev.curve.v) = Len(curve) /\ \A i \in 1..Len(curve) : Near(R(ev.curve.v[i]), curve[i], Scale(e, 0)), "bezier curve") }

Init == l = 1 /\ k = 1 /\ bad = {}
Instant ==
  /\ l <= Len(Trace) /\ ~Crashed(l) /\ k <= Len(Trace[l].at)
  /\ bad' = bad \cup AtInstant(l, k)
  /\ k' = k + 1 /\ UNCHANGED l
Judge ==
  /\ l <= Len(Trace) /\ (IF Crashed(l) THEN TRUE ELSE k > Len(Trace[l].at))
  /\ LET all == bad \cup (IF Crashed(l) THEN {"crash"} ELSE Whole(l)) IN Report(l, all)
  /\ bad' = {} /\ l' = l + 1 /\ k' = 1
Finish ==
  /\ l = Len(Trace) + 1 /\ k = 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace), success |-> Cardinality({e \in 1..Len(Trace) : ~Crashed(e)}), failure |-> 0]))
  /\ k' = 2 /\ UNCHANGED <<l, bad>>
Next == Instant \/ Judge \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Trace) + 1)
=============================================================================
