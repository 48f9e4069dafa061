----------------------------- MODULE HalfSpaces -----------------------------
(* Rows a . x <= b read as half spaces: what a list of rows says, whatever the *)
(* order, the scale or the number of times it says it.                         *)
EXTENDS Rational, Integers, Sequences, TLC

HTol == RQ(1, 1000000000)
HSize(v) == IF Len(v) = 0 THEN R(0) ELSE VMaxAbs(v)
HNear(u, v) == RLe(HSize(VSub(u, v)), RMul(HTol, RAdd(R(1), HSize(u))))
HNormal(p) == LET n == HSize(p.a)
              IN  IF REq(n, R(0)) THEN [a |-> p.a, b |-> p.b] ELSE [a |-> VScale(RDiv(R(1), n), p.a), b |-> RDiv(p.b, n)]
(* the same half space; an empty row is the same as another when both say the same of nothing *)
SameHalf(p, q) ==
  LET ep == REq(HSize(p.a), R(0))
      eq == REq(HSize(q.a), R(0))
  IN  IF ep \/ eq THEN (ep <=> eq) /\ (RLt(p.b, R(0)) <=> RLt(q.b, R(0)))
      ELSE HNear(p.a \o <<p.b>>, q.a \o <<q.b>>)
Says(S, i, p) == IF i <= Len(S) /\ SameHalf(S[i], p) THEN TRUE ELSE \E j \in 1..Len(S) : SameHalf(S[j], p)
(* every row of S is among those of T *)
Within(S, T) ==
  LET ns == TLCEval([i \in 1..Len(S) |-> HNormal(S[i])])
      nt == TLCEval([i \in 1..Len(T) |-> HNormal(T[i])])
  IN  \A i \in 1..Len(ns) : Says(nt, i, ns[i])
(* a row that excludes nothing *)
Idle(p) == REq(HSize(p.a), R(0)) /\ ~RLt(p.b, R(0))
=============================================================================
