------------------------------- MODULE ExprMC -------------------------------
(* Every program of Expr on two variables of small expressions: an operation   *)
(* computes with the points that the expressions stand for.                    *)
EXTENDS Expr, IOUtils

VARIABLES s
vars == <<s>>
Thorough == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER = "thorough" ELSE FALSE
V == {1, 2}
Ints == -1..1
Givens == {[A |-> <<<<R(a)>>>>, b |-> <<R(c)>>] : a, c \in Ints} \cup {[A |-> <<<<R(1)>>, <<R(-1)>>>>, b |-> <<R(0), R(1)>>]}
(* the variables play the same part, so the first is the target *)
Ops == {<<w, 1, a, b>> : w \in {"add", "sub"}, a, b \in V} \cup {<<"lmul", 1, k, a>> : a \in V, k \in {-4, 2}} \cup {<<"rmul", 1, 2, a>> : a \in V}
       \cup {<<"copy", v, a>> : v, a \in V} \cup {<<"curve2", 1, 2, a, b>> : a, b \in V}
       \cup {<<"curve3", 1, 4, a, b, c>> : a, b, c \in V}
Sh(st) == [v \in Slots |-> IF st[v] = None THEN None ELSE Shape(st[v])]
Tiny(x) == RLe(RAbs(x), R(1)) /\ x[2] \in (IF Thorough THEN {1, 2} ELSE {1})
Small(w) == \A i \in 1..Len(w.b) : Tiny(w.b[i]) /\ Tiny(w.A[i][1])
After(o) == IF RefusedOp(Sh(s), o) THEN s ELSE [s EXCEPT ![o[2]] = Value(s, o, None)]
Init == s = [v \in Slots |-> None]
Make == \E v \in V : \E g \in Givens : s' = [s EXCEPT ![v] = g]
Do(o) == Possible(Sh(s), o) /\ s' = After(o)
Next == Make \/ \E o \in Ops : Do(o)
(* what is explored: values that stay small *)
Explored == \A v \in V : s[v] = None \/ Small(s[v])
(* the shape is the one announced, other variables keep their value *)
Frame(o, n) == Sh(n) = ShapesAfter(Sh(s), o) /\ \A v \in V : v \notin Writes(o) => n[v] = s[v]
(* evaluating commutes with computing *)
(* an affine map is known by two values *)
Xs == {R(0), R(2)}
PointWise(o, n) ==
  ~RefusedOp(Sh(s), o) =>
    \A x \in Xs :
      LET at(v) == EAt(s[v], <<x>>)
          new == EAt(n[o[2]], <<x>>)
          r == Reads(o)
      IN  CASE o[1] = "add" -> new = VAdd(at(r[1]), at(r[2]))
            [] o[1] = "sub" -> VAdd(new, at(r[2])) = at(r[1])
            [] o[1] \in {"lmul", "rmul"} -> new = VScale(Quarter(o[3]), at(r[1]))
            [] o[1] = "copy" -> new = at(r[1])
            [] OTHER -> new = BEval([i \in 1..Len(r) |-> at(r[i])], RQ(o[3], 8))
Steps == \A o \in Ops : Possible(Sh(s), o) => LET n == TLCEval(After(o)) IN Frame(o, n) /\ PointWise(o, n)
(* adding and subtracting come back to the same *)
Group == \A a, b \in V : IF s[a] # None /\ s[b] # None /\ Sh(s)[a] = Sh(s)[b]
                         THEN /\ EAdd(s[a], s[b]) = EAdd(s[b], s[a])
                              /\ EAdd(ESub(s[a], s[b]), s[b]) = s[a]
                              /\ ESub(s[a], s[b]) = EScale(R(-1), ESub(s[b], s[a]))
                         ELSE TRUE
=============================================================================
