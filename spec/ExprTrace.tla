------------------------------ MODULE ExprTrace -----------------------------
(* Conformance of the affine expressions with Expr: every step of a recorded   *)
(* program is the step of Expr from the values recorded before it.             *)
EXTENDS Expr, TraceBase

VARIABLES l, i, shapes, bad
vars == <<l, i, shapes, bad>>
Tol == RQ(1, 1000000000)
Size(v) == IF Len(v) = 0 THEN R(0) ELSE VMaxAbs(v)
NearV(a, b) == Len(a) = Len(b) /\ (Len(a) = 0 \/ RLe(Size(VSub(a, b)), RMul(Tol, RAdd(R(1), Size(b)))))
NearE(u, v) == Len(u.A) = Len(v.A) /\ NearV(u.b, v.b) /\ \A k \in 1..Len(u.A) : NearV(u.A[k], v.A[k])
Steps(e) == Trace[e].steps
Val(x) == IF x = <<>> THEN None ELSE [A |-> R(x.A), b |-> R(x.b)]
Before(e, k, v) == IF k = 1 THEN None ELSE Val(Steps(e)[k - 1].s[v])
Fresh == [v \in Slots |-> None]

(* step k of program e, from the shapes sh *)
Judge(e, k, sh) ==
  LET t == Steps(e)[k]
      o == t.op
      s == [v \in Slots |-> Before(e, k, v)]
      after(v) == t.s[v]
      name == o[1] \o " (operation " \o ToString(k) \o ")"
      kept(v) == IF k = 1 THEN after(v) = <<>> ELSE after(v) = Steps(e)[k - 1].s[v]
  IN  IF ~Possible(sh, o) THEN {"not a program: " \o name}
      ELSE IF o[1] = "same"
      THEN LET u == s[o[2]]
               w == s[o[3]]
               equal == u = w
               apart == ~NearE(u, w)
           IN  Unless(t.out \in {"yes", "no"}, "equality and difference disagree: " \o name)
               \cup Unless(equal => t.out = "yes", "equal expressions are told different: " \o name)
               \cup Unless(apart => t.out = "no", "different expressions are told equal: " \o name)
               \cup Unless(\A v \in Slots : kept(v), "a variable changed: " \o name)
      ELSE IF RefusedOp(sh, o)
      THEN Unless(t.out = "throw", "not refused: " \o name)
           \cup Unless(\A v \in Slots : kept(v), "a refusal changed a variable: " \o name)
      ELSE IF t.out # "ok" THEN {"refused: " \o name}
      ELSE LET x == after(o[2])
               new == ShapeOf(sh, o)
           IN  Unless(\A v \in Slots \ {o[2]} : kept(v), "another variable changed: " \o name)
               \cup (IF x = <<>> THEN {"no value: " \o name}
                     ELSE IF ~(Len(x.b) = new[1] /\ Len(x.A) = new[1] /\ \A r \in 1..Len(x.A) : Len(x.A[r]) = new[2]) THEN {"shape: " \o name}
                     ELSE Unless(x.n = new[1], "size: " \o name)
                          \cup Unless(IF o[1] = "copy" THEN x = Steps(e)[k - 1].s[o[3]] ELSE NearE(Val(x), Value(s, o, Val(x))), "value: " \o name))

Init == l = 1 /\ i = 1 /\ shapes = Fresh /\ bad = {}
Do ==
  /\ l <= Len(Trace)
  /\ IF Crashed(l) THEN FALSE ELSE i <= Len(Steps(l))
  /\ bad' = bad \cup Judge(l, i, shapes)
  /\ shapes' = IF Possible(shapes, Steps(l)[i].op) THEN ShapesAfter(shapes, Steps(l)[i].op) ELSE shapes
  /\ i' = i + 1 /\ UNCHANGED l
End ==
  /\ l <= Len(Trace)
  /\ IF Crashed(l) THEN TRUE ELSE i = Len(Steps(l)) + 1
  /\ Report(l, IF Crashed(l) THEN {"crash"} ELSE bad)
  /\ l' = l + 1 /\ i' = 1 /\ shapes' = Fresh /\ bad' = {}
Finish ==
  /\ l = Len(Trace) + 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace)]))
  /\ l' = l + 1 /\ UNCHANGED <<i, shapes, bad>>
Next == Do \/ End \/ Finish
TypeOK == l \in 1..(Len(Trace) + 2)
=============================================================================
