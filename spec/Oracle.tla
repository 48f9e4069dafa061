------------------------------- MODULE Oracle -------------------------------
(* Witness search.  An operator below stands for "CHOOSE a record that says    *)
(* what it claims": the Java override searches for it with exact arithmetic.   *)
(* Nothing is concluded from an answer before IsFeasible / IsFarkas / IsKKT    *)
(* (evaluated by TLC on the original data) has confirmed it; "unknown" or an   *)
(* unconfirmed answer decides nothing and is counted.                          *)
(*                                                                             *)
(* min 1/2 x'Hx + g'x  subject to  A x <= b       (H positive definite)        *)
(* result: [status |-> "optimal" | "infeasible" | "unbounded" | "unknown",     *)
(*          x |-> point, lam |-> sequence of <<row, multiplier>>]              *)
EXTENDS Rational, TLC
(* the ..Search operators search in floating point, the ..Exact ones exactly   *)
QPExact(H, g, A, b) == [status |-> "unknown", x |-> <<>>, lam |-> <<>>]
LPExact(c, A, b) == [status |-> "unknown", x |-> <<>>, lam |-> <<>>]
QPSearch(H, g, A, b) == [status |-> "unknown", x |-> <<>>, lam |-> <<>>]
LPSearch(c, A, b) == [status |-> "unknown", x |-> <<>>, lam |-> <<>>]

(* A x <= b, up to eps *)
IsFeasible(x, A, b, eps) ==
  LET ax == TLCEval(MV(A, x)) IN \A i \in 1..Len(A) : RLe(ax[i], RAdd(b[i], eps))

(* lam >= 0, A'lam ~ 0, b'lam < 0: no x satisfies A x <= b.  With the residual *)
(* r = A'lam, any x with |x|_1 <= box would need  b'lam >= r.x >= -|r|_inf box *)
IsFarkas(lam, A, b, box) ==
  /\ Len(lam) > 0
  /\ \A k \in 1..Len(lam) : RLe(R(0), lam[k][2])
  /\ LET ks == [k \in 1..Len(lam) |-> lam[k][2]]
         res == LinComb(ks, [k \in 1..Len(lam) |-> A[lam[k][1]]])
         bl == VDot(ks, [k \in 1..Len(lam) |-> b[lam[k][1]]])
     IN  RLt(bl, RNeg(RMul(VMaxAbs(res), box)))

QuadCost(H, g, x) == RAdd(RMul(RQ(1, 2), VDot(x, MV(H, x))), VDot(g, x))
=============================================================================
