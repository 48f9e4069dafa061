------------------------------- MODULE Bezier -------------------------------
(* Bezier curves with exact rational control points.  A curve of degree n is   *)
(* the sequence of its n + 1 control points; it is parameterised by u in [0,1] *)
(* (normalised time) unless a duration T is given.                             *)
EXTENDS Rational, TLC

(* Pascal's triangle, rows 0..MaxDegree; row n is the sequence C(n,0)..C(n,n) *)
MaxDegree == 26
RECURSIVE Pascal(_)
Pascal(rows) ==
  LET n == Len(rows)
      r == rows[n]
  IN  IF n = MaxDegree + 1 THEN rows
      ELSE Pascal(Append(rows, TLCEval([j \in 1..(n + 1) |->
             IF j = 1 \/ j = n + 1 THEN 1 ELSE r[j - 1] + r[j]])))
BinomTable == Pascal(<< <<1>> >>)
C(n, k) == BinomTable[n + 1][k + 1]

RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN R(1) ELSE RMul(x, RPow(x, k - 1))

Deg(P) == Len(P) - 1

(* the Bernstein basis of degree n at u, as a sequence of n + 1 numbers *)
BernRow(n, u) ==
  LET v == RSub(R(1), u)
      pu[k \in 0..n] == IF k = 0 THEN R(1) ELSE RMul(pu[k - 1], u)
      pv[k \in 0..n] == IF k = 0 THEN R(1) ELSE RMul(pv[k - 1], v)
      tu == TLCEval(pu)
      tv == TLCEval(pv)
  IN  TLCEval([i \in 1..(n + 1) |-> RMul(R(C(n, i - 1)), RMul(tu[i - 1], tv[n + 1 - i]))])

BEval(P, u) == LinComb(BernRow(Deg(P), u), P)

(* control points of the derivative with respect to time of a curve of         *)
(* duration T                                                                  *)
BDeriv(P, T) ==
  TLCEval([i \in 1..Deg(P) |-> VScale(RDiv(R(Deg(P)), T), VSub(P[i + 1], P[i]))])

RECURSIVE BDerivK(_, _, _)
BDerivK(P, T, k) == IF k = 0 THEN P ELSE BDerivK(BDeriv(P, T), T, k - 1)

(* k-th derivative at u; zero beyond the degree *)
BDerivAt(P, T, k, u) ==
  IF k > Deg(P) THEN VZero(Len(P[1])) ELSE BEval(BDerivK(P, T, k), u)

(* de Casteljau: control points of the restriction to [0,u] and to [u,1] *)
RECURSIVE CastRows(_, _)
CastRows(P, u) ==
  IF Len(P) = 1 THEN <<P>>
  ELSE <<P>> \o CastRows(TLCEval([i \in 1..(Len(P) - 1) |->
                 VAdd(VScale(RSub(R(1), u), P[i]), VScale(u, P[i + 1]))]), u)
BLeft(P, u) == LET rows == TLCEval(CastRows(P, u)) IN TLCEval([i \in 1..Len(P) |-> rows[i][1]])
BRight(P, u) ==
  LET rows == TLCEval(CastRows(P, u))
      n == Len(P)
  IN  TLCEval([i \in 1..n |-> rows[n + 1 - i][i]])

(* restriction to [u0, u1], 0 <= u0 < u1 <= 1 *)
BSplit(P, u0, u1) ==
  LET L == IF REq(u1, R(1)) THEN P ELSE BLeft(P, u1)
  IN  IF REq(u0, R(0)) THEN L ELSE BRight(L, RDiv(u0, u1))

(* degree elevation by one, to degree n, and exact reduction by one (only      *)
(* meaningful when the curve really has the lower degree)                      *)
BElevate(P) ==
  LET n == Len(P) \* new degree
  IN  TLCEval([i \in 1..(n + 1) |->
        IF i = 1 THEN P[1] ELSE IF i = n + 1 THEN P[n]
        ELSE VAdd(VScale(RQ(i - 1, n), P[i - 1]), VScale(RQ(n - i + 1, n), P[i]))])
RECURSIVE BElevateTo(_, _)
BElevateTo(P, n) == IF Deg(P) >= n THEN P ELSE BElevateTo(BElevate(P), n)
RECURSIVE BReduce_(_, _, _)
BReduce_(Q, n, acc) ==
  LET i == Len(acc)
  IN  IF i = n THEN acc
      ELSE BReduce_(Q, n, Append(acc,
             VScale(RDiv(R(n), R(n - i)),
                    VSub(Q[i + 1], VScale(RQ(i, n), acc[i])))))
BReduce(Q) == BReduce_(Q, Deg(Q), <<Q[1]>>)

(* Bernstein coefficients of the cross product of two curves *)
BCross(P, Q) ==
  LET m == Deg(P)
      n == Deg(Q)
      lo(k) == IF k - n > 0 THEN k - n ELSE 0
      hi(k) == IF k < m THEN k ELSE m
      coef(k) ==
        LET ids == [t \in 1..(hi(k) - lo(k) + 1) |-> lo(k) + t - 1]
        IN  LinComb([t \in 1..Len(ids) |-> RQ(C(m, ids[t]) * C(n, k - ids[t]), C(m + n, k))],
                    [t \in 1..Len(ids) |-> VCross(P[ids[t] + 1], Q[k - ids[t] + 1])])
  IN  TLCEval([k \in 1..(m + n + 1) |-> coef(k - 1)])

BAdd(P, Q) == TLCEval([i \in 1..Len(P) |-> VAdd(P[i], Q[i])])
BSubConst(P, v) == TLCEval([i \in 1..Len(P) |-> VSub(P[i], v)])

(* integral over [0,T] of the squared norm of the curve *)
BSqInt(P, T) ==
  LET n == Deg(P)
      w(i, j) == RQ(C(n, i) * C(n, j), C(2 * n, i + j))
  IN  RMul(RDiv(T, R(2 * n + 1)),
        VSum(FlattenSeqs([i \in 1..(n + 1) |-> [j \in 1..(n + 1) |->
               RMul(w(i - 1, j - 1), VDot(P[i], P[j]))]])))
=============================================================================
