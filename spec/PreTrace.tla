------------------------------- MODULE PreTrace -------------------------------
(* Conformance of the preprocessing of inequalities (removal of empty rows,    *)
(* normalisation), of the algebra of affine expressions and of the sampling of *)
(* wrench curves with their definitions.                                       *)
EXTENDS Bezier, TraceBase

VARIABLES l, k, bad
vars == <<l, k, bad>>
Tol == RQ(1, 1000000000)
Size(v) == IF Len(v) = 0 THEN R(0) ELSE VMaxAbs(v)
NearV(a, b) == Len(a) = Len(b) /\ (Len(a) = 0 \/ RLe(Size(VSub(a, b)), RMul(Tol, RAdd(R(1), Size(b)))))
NearM(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : NearV(A[i], B[i])

(* the rows of a system; two rows are the same half space when one is a        *)
(* positive multiple of the other                                              *)
SameHalfSpace(a, ba, c, bc) ==
  LET na == RAdd(Size(a), R(0))
      nc == Size(c)
  IN  /\ RLt(R(0), na) /\ RLt(R(0), nc)
      /\ LET u == VScale(RDiv(R(1), na), a \o <<ba>>)
             v == VScale(RDiv(R(1), nc), c \o <<bc>>)
         IN  RLe(Size(VSub(u, v)), RMul(Tol, RAdd(R(1), Size(u))))
Normalised(e) ==
  LET t == Trace[e]
      A == R(t.A)
      b == R(t.b)
      A2 == R(t.A2)
      b2 == R(t.b2)
      m == Len(b)
      empty == {i \in 1..m : REq(Size(A[i]), R(0))}
      absurd == \E i \in empty : RLt(b[i], R(0))
      n == m - Cardinality(empty)
      norm2(i) == VDot(A2[i], A2[i])
  IN  IF absurd THEN Unless(t.k = -1, "a system with an impossible empty row is not reported infeasible")
      ELSE IF t.k = -1 THEN {"a system without impossible row is reported infeasible"}
      ELSE IF t.k # n THEN {"wrong number of rows kept"}
      ELSE UNION {
        Unless(\A i \in (1..m) \ empty : \E j \in 1..n : SameHalfSpace(A[i], b[i], A2[j], b2[j]), "a constraint is lost"),
        Unless(\A j \in 1..n : \E i \in (1..m) \ empty : SameHalfSpace(A[i], b[i], A2[j], b2[j]), "a constraint is invented"),
        Unless(\A j \in 1..n : RLe(RAbs(RSub(norm2(j), R(1))), RMul(R(10), Tol)), "a row is not normalised"),
        \* each as many times as before
        Unless(\A j \in 1..n :
                 Cardinality({i \in (1..m) \ empty : SameHalfSpace(A[i], b[i], A2[j], b2[j])})
                 = Cardinality({i \in 1..n : SameHalfSpace(A2[i], b2[i], A2[j], b2[j])}), "a constraint is duplicated") }

W(o) == [A |-> R(o.A), b |-> R(o.b)]
Comb(x, u, y, v) ==
  [A |-> [i \in 1..Len(u.A) |-> VAdd(VScale(x, u.A[i]), VScale(y, v.A[i]))], b |-> VAdd(VScale(x, u.b), VScale(y, v.b))]
NearW(u, v) == NearM(u.A, v.A) /\ NearV(u.b, v.b)
Algebra(e) ==
  LET t == Trace[e]
      u == W(t.u)
      v == W(t.v)
      f == R(t.f)
      a == R(t.ska)
      c == R(t.skb)
      x == VCross(a, c)
  IN  UNION {
        Unless(NearW(W(t.sum), Comb(R(1), u, R(1), v)), "sum"),
        Unless(NearW(W(t.dif), Comb(R(1), u, R(-1), v)), "difference"),
        Unless(NearW(W(t.lmul), Comb(f, u, R(0), u)), "multiple (from the left)"),
        Unless(NearW(W(t.rmul), Comb(f, u, R(0), u)), "multiple (from the right)"),
        Unless(t.eqs.same /\ ~t.eqs.diffb /\ ~t.eqs.diffA, "equality of expressions"),
        Unless(t.eqs.size = Len(u.A), "size of an expression"),
        Unless(t.eqs.zero, "zero expression"),
        Unless(NearV(R(t.skab), x), "the cross product matrix does not compute the cross product"),
        Unless(\A i, j \in 1..3 : REq(RAdd(R(t.sk)[i][j], R(t.sk)[j][i]), R(0)), "the cross product matrix is not skew") }

Sampled(e) ==
  LET t == Trace[e]
      Ws == [i \in 1..Len(t.wps) |-> W(t.wps[i])]
      at(u) == LET c == BernRow(Len(Ws) - 1, u)
               IN  [A |-> [r \in 1..Len(Ws[1].A) |-> LinComb(c, [i \in 1..Len(Ws) |-> Ws[i].A[r]])],
                    b |-> LinComb(c, [i \in 1..Len(Ws) |-> Ws[i].b])]
  IN  UNION {
        Unless(Len(t.disc) = t.ns + 1, "number of samples of the curve"),
        Unless(Len(t.disc) # t.ns + 1 \/ \A i \in 1..Len(t.disc) : NearW(W(t.disc[i]), at(RQ(i - 1, t.ns))),
               "a sample is not on the curve"),
        Unless(NearV(R(t.bern), BernRow(t.deg, R(t.bu))), "Bernstein polynomials") }

Parts == 3
Judge(e, q) == CASE q = 1 -> Normalised(e) [] q = 2 -> Algebra(e) [] OTHER -> Sampled(e)
Init == l = 1 /\ k = 1 /\ bad = {}
Step ==
  /\ l <= Len(Trace)
  /\ IF Crashed(l)
     THEN Report(l, {"crash"}) /\ l' = l + 1 /\ k' = 1 /\ bad' = {}
     ELSE LET all == bad \cup Judge(l, k)
          IN  IF k < Parts THEN k' = k + 1 /\ bad' = all /\ l' = l
              ELSE Report(l, all) /\ l' = l + 1 /\ k' = 1 /\ bad' = {}
Finish ==
  /\ l = Len(Trace) + 1 /\ k = 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace)]))
  /\ k' = 2 /\ UNCHANGED <<l, bad>>
Next == Step \/ Finish
TypeOK == l \in 1..(Len(Trace) + 1) /\ k \in 1..Parts
=============================================================================
