------------------------------ MODULE Rational ------------------------------
(* Exact rational numbers, vectors (sequences of rationals) and matrices       *)
(* (sequences of rows).                                                        *)
(*                                                                             *)
(* The definitions below are the meaning of the operators: a rational is a     *)
(* pair <<p, q>>, q > 0, in lowest terms.  TLC's integers have 32 bits, and    *)
(* the numbers recorded from the implementation are IEEE doubles, so when TLC  *)
(* runs, java/vt/RatOverrides.java replaces the operators by an exact          *)
(* (BigInteger) implementation of the same functions: no rounding anywhere.    *)
(* RationalTest.tla compares the two on small numbers.  In the override a      *)
(* number that came from an infinite or NaN double makes every comparison      *)
(* FALSE.                                                                      *)
EXTENDS Integers, Sequences

RECURSIVE Gcd_(_, _)
Gcd_(a, b) == IF b = 0 THEN a ELSE Gcd_(b, a % b)
AbsI_(a) == IF a < 0 THEN -a ELSE a

RQ(p, q) ==
  LET s == IF q < 0 THEN -1 ELSE 1
      g == Gcd_(AbsI_(p), AbsI_(q))
  IN  <<(s * p) \div g, (s * q) \div g>>

(* R(x): the rational of an integer (override: also of a decimal/hexadecimal   *)
(* double in a string, and elementwise of nested sequences).                   *)
R(x) == RQ(x, 1)

RIsNum(a) == TRUE
RPair(a) == a
RShow(a) == a
RFloorInt(a) == a[1] \div a[2]

RAdd(a, b) == RQ(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RQ(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == RQ(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == RQ(a[1] * b[2], a[2] * b[1])
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
REq(a, b) == a[1] * b[2] = b[1] * a[2]

RNeg(a) == RSub(R(0), a)
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RAbs(a) == RMax(a, RNeg(a))

(* a rational close to the square root: |y*y - x| <= x / 10^12 (the override  *)
(* searches it; the definition is for small numbers)                           *)
RSqrt(x) == CHOOSE y \in {RQ(p, q) : p \in 0..50, q \in 1..12} : REq(RMul(y, y), x)

RECURSIVE VSum_(_, _)
VSum_(v, i) == IF i = 0 THEN R(0) ELSE RAdd(VSum_(v, i - 1), v[i])
VSum(v) == VSum_(v, Len(v))
VAdd(a, b) == [i \in 1..Len(a) |-> RAdd(a[i], b[i])]
VSub(a, b) == [i \in 1..Len(a) |-> RSub(a[i], b[i])]
VScale(k, b) == [i \in 1..Len(b) |-> RMul(k, b[i])]
VDot(a, b) == VSum([i \in 1..Len(a) |-> RMul(a[i], b[i])])
VLe(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RLe(a[i], b[i])
RECURSIVE VMaxAbs_(_, _)
VMaxAbs_(v, i) == IF i = 0 THEN R(0) ELSE RMax(VMaxAbs_(v, i - 1), RAbs(v[i]))
VMaxAbs(v) == VMaxAbs_(v, Len(v))
RECURSIVE VMin_(_, _)
VMin_(v, i) == IF i = 1 THEN v[1] ELSE RMin(VMin_(v, i - 1), v[i])
VMin(v) == VMin_(v, Len(v))
(* M v, M a sequence of rows *)
MV(M, v) == [i \in 1..Len(M) |-> VDot(M[i], v)]
(* sum_i ks[i] * vs[i], vs a sequence of vectors *)
LinComb(ks, vs) ==
  [j \in 1..Len(vs[1]) |-> VSum([i \in 1..Len(ks) |-> RMul(ks[i], vs[i][j])])]

RECURSIVE FlattenSeqs_(_, _)
FlattenSeqs_(s, i) == IF i = 0 THEN <<>> ELSE FlattenSeqs_(s, i - 1) \o s[i]
FlattenSeqs(s) == FlattenSeqs_(s, Len(s))

VCross(a, b) ==
  << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
     RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
     RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
VZero(n) == [i \in 1..n |-> R(0)]
VNeg(v) == VScale(R(-1), v)
VUnit(n, k) == [i \in 1..n |-> IF i = k THEN R(1) ELSE R(0)]
=============================================================================
