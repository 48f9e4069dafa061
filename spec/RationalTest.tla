------------------------------ MODULE RationalTest ----------------------------
(* The exact arithmetic used when TLC runs (java/vt) computes the functions    *)
(* that Rational.tla defines: checked for all small fractions with the         *)
(* overrides, and once more without them.                                      *)
EXTENDS Rational, TLC, IOUtils

Tier == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER ELSE "quick"
N == IF Tier = "quick" THEN 3 ELSE 5
Num == (-N)..N
Den == {-3, -2, 1, 2, 3} \cup (IF Tier = "quick" THEN {} ELSE {-1, 4, 5})

VARIABLES p, q, r, s
vars == <<p, q, r, s>>

RECURSIVE G(_, _)
G(a, b) == IF b = 0 THEN a ELSE G(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Lowest(a, b) == LET g == G(Abs(a), Abs(b))
                    t == IF b < 0 THEN -1 ELSE 1
                IN  <<(t * a) \div g, (t * b) \div g>>
Is(x, a, b) == RPair(x) = Lowest(a, b)

A == RQ(p, q)
B == RQ(r, s)
(* compare a/b with c/d by integers, b and d of any sign *)
Less(a, b, c, d) == LET x == Lowest(a, b)
                        y == Lowest(c, d)
                    IN  x[1] * y[2] < y[1] * x[2]
Same(a, b, c, d) == Lowest(a, b) = Lowest(c, d)
Scalars ==
  /\ Is(A, p, q) /\ RIsNum(A)
  /\ Is(R(p), p, 1)
  /\ Is(RAdd(A, B), p * s + r * q, q * s)
  /\ Is(RSub(A, B), p * s - r * q, q * s)
  /\ Is(RMul(A, B), p * r, q * s)
  /\ r # 0 => Is(RDiv(A, B), p * s, q * r)
  /\ Is(RNeg(A), -p, q)
  /\ RLt(A, B) = Less(p, q, r, s)
  /\ REq(A, B) = Same(p, q, r, s)
  /\ RLe(A, B) = (Less(p, q, r, s) \/ Same(p, q, r, s))
  /\ RPair(RMax(A, B)) = IF Less(p, q, r, s) THEN Lowest(r, s) ELSE Lowest(p, q)
  /\ RPair(RMin(A, B)) = IF Less(r, s, p, q) THEN Lowest(r, s) ELSE Lowest(p, q)
  /\ RPair(RAbs(A)) = IF Less(p, q, 0, 1) THEN Lowest(-p, q) ELSE Lowest(p, q)
  /\ RFloorInt(A) = Lowest(p, q)[1] \div Lowest(p, q)[2]
  /\ ~Less(p, q, 0, 1) => LET y == RSqrt(RMul(A, A))
                              d == RAbs(RSub(RMul(y, y), RMul(A, A)))
                          IN  RLe(RMul(R(1000000), d), RMul(A, A)) /\ RLe(R(0), y)
(* vectors: [a, b, c] with the third entry derived from the others *)
U == <<A, B, RSub(A, R(1))>>
V == <<B, R(2), A>>
P(x) == RPair(x)
PV(v) == [i \in 1..Len(v) |-> RPair(v[i])]
Dot3(u, v) == RAdd(RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])), RMul(u[3], v[3]))
Vectors ==
  /\ PV(VAdd(U, V)) = <<P(RAdd(A, B)), P(RAdd(B, R(2))), P(RSub(RAdd(A, A), R(1)))>>
  /\ PV(VSub(U, V)) = <<P(RSub(A, B)), P(RSub(B, R(2))), P(R(-1))>>
  /\ PV(VScale(B, U)) = <<P(RMul(A, B)), P(RMul(B, B)), P(RSub(RMul(A, B), B))>>
  /\ P(VDot(U, V)) = P(Dot3(U, V))
  /\ P(VSum(U)) = P(RAdd(RAdd(U[1], U[2]), U[3]))
  /\ P(VMaxAbs(U)) = P(RMax(RMax(RAbs(U[1]), RAbs(U[2])), RAbs(U[3])))
  /\ P(VMin(U)) = P(RMin(RMin(U[1], U[2]), U[3]))
  /\ VLe(U, V) = (RLe(U[1], V[1]) /\ RLe(U[2], V[2]) /\ RLe(U[3], V[3]))
  /\ PV(MV(<<U, V>>, U)) = <<P(Dot3(U, U)), P(Dot3(V, U))>>
  /\ PV(LinComb(<<A, B>>, <<U, V>>)) = PV(VAdd(VScale(A, U), VScale(B, V)))
  /\ P(VDot(VCross(U, V), U)) = <<0, 1>> /\ P(VDot(VCross(U, V), V)) = <<0, 1>>
  /\ PV(VCross(VUnit(3, 1), U)) = <<<<0, 1>>, P(RNeg(U[3])), P(U[2])>>
  /\ PV(VNeg(U)) = PV(VSub(VZero(3), U))
  /\ PV(FlattenSeqs(<<U, <<>>, V>>)) = PV(U) \o PV(V)

Init == p \in Num /\ q \in Den /\ r \in Num /\ s \in Den
Next == FALSE /\ UNCHANGED vars
=============================================================================
