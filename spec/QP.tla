---------------------------------- MODULE QP ---------------------------------
(* Convex quadratic programs, what their solutions are, and what a solver may  *)
(* answer.                                                                     *)
(*     minimise 1/2 x'Hx + g'x   subject to   D x = d,   A x <= b              *)
(* H is symmetric positive definite (or zero: a linear program).               *)
EXTENDS Oracle, FiniteSets

(* size of the terms that add up to row.x - rhs *)
RECURSIVE SumAbs_(_, _, _)
SumAbs_(r, x, i) == IF i = 0 THEN R(0) ELSE RAdd(SumAbs_(r, x, i - 1), RAbs(RMul(r[i], x[i])))
TermSize(r, x, rhs) == RAdd(SumAbs_(r, x, Len(x)), RAbs(rhs))
NormInf(v) == IF Len(v) = 0 THEN R(0) ELSE VMaxAbs(v)

(* up to a relative tol: of the terms of the row, and of a unit of length      *)
RowTol(r, x, rhs, tol) == RMul(tol, RAdd(TermSize(r, x, rhs), NormInf(r)))
Satisfies(x, D, d, A, b, tol) ==
  /\ \A i \in 1..Len(D) : RLe(RAbs(RSub(VDot(D[i], x), d[i])), RowTol(D[i], x, d[i], tol))
  /\ \A i \in 1..Len(A) : RLe(VDot(A[i], x), RAdd(b[i], RowTol(A[i], x, b[i], tol)))

(* Karush-Kuhn-Tucker: Hx + g = sum_k mu_k n_k, where n_k is the normal of an  *)
(* equality (any sign of mu) or of a tight inequality a.x >= beta (mu >= 0).   *)
(* act is a sequence of [n, tight, mu, ineq].                                  *)
Stationary(x, H, g, act, tol) ==
  LET hx == TLCEval(MV(H, x))
      mus == [k \in 1..Len(act) |-> act[k].mu]
      ns == [k \in 1..Len(act) |-> act[k].n]
      s == IF Len(act) = 0 THEN VZero(Len(x)) ELSE LinComb(mus, ns)
      res == VSub(VAdd(hx, g), s)
      sc == RAdd(RAdd(NormInf(hx), NormInf(g)),
                 VSum([k \in 1..Len(act) |-> RAbs(RMul(act[k].mu, NormInf(act[k].n)))]))
  IN  RLe(NormInf(res), RMul(tol, sc))
SignsOk(act, tol) ==
  LET top == VSum([k \in 1..Len(act) |-> RAbs(act[k].mu)])
  IN  \A k \in 1..Len(act) : act[k].ineq => RLe(RNeg(RMul(tol, top)), act[k].mu)

(* rows of the feasibility question, inequalities at least a relative eps away *)
(* and equalities up to eps2                                                   *)
AsRows(D, d, A, b, eps, eps2) ==
  [A |-> TLCEval(A \o D \o [i \in 1..Len(D) |-> VNeg(D[i])]),
   b |-> TLCEval([i \in 1..Len(A) |-> RSub(b[i], RMul(eps, NormInf(A[i])))]
                 \o [i \in 1..Len(D) |-> RAdd(d[i], RMul(eps2, NormInf(D[i])))]
                 \o [i \in 1..Len(D) |-> RAdd(RNeg(d[i]), RMul(eps2, NormInf(D[i])))])]
Ident(n) == [i \in 1..n |-> VUnit(n, i)]
(* is there a point inside, with room around it?  "yes" has been confirmed on  *)
(* the rows, by the caller's witness w or by the search                        *)
Feasible(n, D, d, A, b, w, eps) ==
  LET q == AsRows(D, d, A, b, eps, RMul(eps, RQ(1, 1000)))
      strict == AsRows(D, d, A, b, RMul(RQ(2, 1), eps), RMul(eps, RQ(1, 10000)))
  IN  IF Len(w) = n /\ IsFeasible(w, q.A, q.b, R(0)) THEN "yes"
      ELSE LET o == QPSearch(Ident(n), VZero(n), strict.A, strict.b)
           IN  IF o.status = "optimal" /\ IsFeasible(o.x, q.A, q.b, R(0)) THEN "yes"
               ELSE IF o.status = "infeasible" THEN "no" ELSE "unknown"
=============================================================================
