-------------------------------- MODULE Expr --------------------------------
(* A program that computes with affine expressions  x |-> A x + b  held in     *)
(* variables.  An expression is a value: an operation changes the variable it  *)
(* is assigned to and nothing else, whatever variables it reads, itself        *)
(* included.  The sum or the difference of two expressions of different shapes *)
(* does not exist: it is refused, and nothing changes.                         *)
EXTENDS Bezier

Slots == 1..4
None == <<>> \* an unused variable
Rows(w) == Len(w.b)
Cols(w) == IF Rows(w) = 0 THEN 0 ELSE Len(w.A[1])
Shape(w) == <<Rows(w), Cols(w)>>
EZero(r, c) == [A |-> TLCEval([i \in 1..r |-> VZero(c)]), b |-> VZero(r)]
EComb(x, u, y, v) ==
  [A |-> TLCEval([i \in 1..Len(u.A) |-> VAdd(VScale(x, u.A[i]), VScale(y, v.A[i]))]), b |-> VAdd(VScale(x, u.b), VScale(y, v.b))]
EAdd(u, v) == EComb(R(1), u, R(1), v)
ESub(u, v) == EComb(R(1), u, R(-1), v)
EScale(k, u) == [A |-> TLCEval([i \in 1..Len(u.A) |-> VScale(k, u.A[i])]), b |-> VScale(k, u.b)]
(* the expression of the point at u of the curve of control points ws *)
RECURSIVE ESum(_, _, _)
ESum(ks, ws, i) == IF i = 1 THEN EScale(ks[1], ws[1]) ELSE EAdd(ESum(ks, ws, i - 1), EScale(ks[i], ws[i]))
ECurve(ws, u) == ESum(BernRow(Len(ws) - 1, u), ws, Len(ws))
EAt(w, x) == VAdd(MV(w.A, x), w.b)

(* Operations, as tuples <<what, target, ...>> :                               *)
(*   new v r c        the zero expression of r rows and c columns              *)
(*   zero v n         the zero expression of n rows and columns                *)
(*   make v r c       an expression of that shape, given from outside          *)
(*   add v a b, sub v a b                                                      *)
(*   lmul v k a, rmul v k a     k quarters times a, from the left, the right   *)
(*   copy v a                                                                  *)
(*   curve2 v u a b, curve3 v u a b c      the point at u eighths              *)
(*   same v a         whether the two are equal: an answer, no change          *)
Reads(o) ==
  CASE o[1] \in {"add", "sub"} -> <<o[3], o[4]>>
    [] o[1] \in {"lmul", "rmul", "curve2", "curve3"} -> SubSeq(o, 4, Len(o))
    [] o[1] = "copy" -> <<o[3]>>
    [] o[1] = "same" -> <<o[2], o[3]>>
    [] OTHER -> <<>>
Writes(o) == IF o[1] = "same" THEN {} ELSE {o[2]}
(* shapes alone tell what can be asked, and what is refused *)
Possible(sh, o) ==
  LET r == Reads(o)
  IN  /\ \A i \in 1..Len(r) : sh[r[i]] # None
      /\ o[1] \in {"curve2", "curve3", "same"} => \A i \in 1..Len(r) : sh[r[i]] = sh[r[1]]
RefusedOp(sh, o) == o[1] \in {"add", "sub"} /\ sh[o[3]] # sh[o[4]]
ShapeOf(sh, o) ==
  CASE o[1] \in {"new", "make"} -> <<o[3], o[4]>>
    [] o[1] = "zero" -> <<o[3], o[3]>>
    [] OTHER -> sh[Reads(o)[1]]
ShapesAfter(sh, o) == IF RefusedOp(sh, o) \/ Writes(o) = {} THEN sh ELSE [sh EXCEPT ![o[2]] = ShapeOf(sh, o)]

Quarter(k) == RQ(k, 4)
(* the value assigned; `given' is the expression that make receives *)
Value(s, o, given) ==
  CASE o[1] = "new" -> EZero(o[3], o[4])
    [] o[1] = "zero" -> EZero(o[3], o[3])
    [] o[1] = "make" -> given
    [] o[1] = "add" -> EAdd(s[o[3]], s[o[4]])
    [] o[1] = "sub" -> ESub(s[o[3]], s[o[4]])
    [] o[1] \in {"lmul", "rmul"} -> EScale(Quarter(o[3]), s[o[4]])
    [] o[1] = "copy" -> s[o[3]]
    [] OTHER -> LET r == Reads(o) IN ECurve([i \in 1..Len(r) |-> s[r[i]]], RQ(o[3], 8))
=============================================================================
