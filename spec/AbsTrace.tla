------------------------------- MODULE AbsTrace -------------------------------
(* Conformance of the generic entry points (solvers::solve and                 *)
(* bezier_com_traj::solve) with QP: constraints A x <= b, D x = d and bounds   *)
(* lo <= x <= hi, quadprog or glpk behind.  Steps: the answer, the answer from *)
(* another initial guess, the answer to an unknown solver.                     *)
EXTENDS QP, TraceBase

VARIABLES l, k, bad
vars == <<l, k, bad>>
Uses == <<"r", "again", "bad">>
Tol == RQ(1, 1000000)
Unb == R(100000)

(* the values +-UNBOUNDED mean "no bound" to glpk, and are bounds like the     *)
(* others to quadprog                                                          *)
(* a variable whose bounds are equal is fixed: that is an equality            *)
FixedVars(t) == IF Len(t.lo) = 0 \/ Len(t.hi) = 0 THEN {}
             ELSE {i \in 1..Len(t.lo) : REq(R(t.lo[i]), R(t.hi[i]))}
LoRows(t, n) ==
  LET v == R(t.lo)
      on == {i \in (1..Len(v)) \ FixedVars(t) : t.solver = "qp" \/ ~REq(v[i], RNeg(Unb))}
      s == SetToSeq_(on)
  IN  [A |-> [j \in 1..Len(s) |-> VNeg(VUnit(n, s[j]))], b |-> [j \in 1..Len(s) |-> RNeg(v[s[j]])]]
HiRows(t, n) ==
  LET v == R(t.hi)
      on == {i \in (1..Len(v)) \ FixedVars(t) : t.solver = "qp" \/ ~REq(v[i], Unb)}
      s == SetToSeq_(on)
  IN  [A |-> [j \in 1..Len(s) |-> VUnit(n, s[j])], b |-> [j \in 1..Len(s) |-> v[s[j]]]]

Pb == [e \in 1..Len(Trace) |->
  IF Crashed(e) THEN <<>>
  ELSE LET t == Trace[e]
           n == Len(t.g)
           lr == LoRows(t, n)
           hr == HiRows(t, n)
           fx == SetToSeq_(FixedVars(t))
       IN  [n |-> n, H |-> TLCEval(R(t.H)), g |-> TLCEval(R(t.g)), D |-> TLCEval(R(t.D) \o [j \in 1..Len(fx) |-> VUnit(n, fx[j])]),
            d |-> TLCEval(R(t.d) \o [j \in 1..Len(fx) |-> R(t.lo[fx[j]])]),
            A |-> TLCEval(R(t.A) \o lr.A \o hr.A), b |-> TLCEval(R(t.b) \o lr.b \o hr.b),
            wit |-> TLCEval(R(t.wit)), lp |-> t.solver = "glpk"]]

Value(e, x) == IF Pb[e].lp THEN VDot(Pb[e].g, x) ELSE QuadCost(Pb[e].H, Pb[e].g, x)
ValueSize(e, x) ==
  LET p == Pb[e]
      s == SumAbs_(p.g, x, p.n)
  IN  \* x itself is only known up to rounding errors
      RAdd(RMul(RQ(1, 1000), RAdd(R(1), NormInf(p.g))), IF p.lp THEN s ELSE RAdd(s, SumAbs_(MV(p.H, x), x, p.n)))
Search(e, q) == IF Pb[e].lp THEN LPSearch(Pb[e].g, q.A, q.b) ELSE QPSearch(Pb[e].H, Pb[e].g, q.A, q.b)

Good(e, a) ==
  LET p == Pb[e]
      x == R(a.x)
      v == Value(e, x)
      \* slightly relaxed: there may be no room at all
      pico == RMul(RQ(1, 1000000), RQ(1, 1000000))
      q == AsRows(p.D, p.d, p.A, p.b, RNeg(pico), pico)
      \* a linear program: x is optimal iff a proximal step from x stays there
      o == IF p.lp THEN QPSearch(Ident(p.n), VSub(VScale(R(10), p.g), x), q.A, q.b) ELSE Search(e, q)
      better == o.status = "optimal" /\ Satisfies(o.x, p.D, p.d, p.A, p.b, RMul(RQ(1, 100000), RQ(1, 100000)))
                /\ RLt(RAdd(Value(e, o.x), RMul(Tol, RAdd(ValueSize(e, x), ValueSize(e, o.x)))), v)
  IN  IF Len(x) # p.n \/ \E i \in 1..Len(x) : ~RIsNum(x[i]) THEN {"the solution is not a point"}
      ELSE UNION {
        Unless(Satisfies(x, p.D, p.d, p.A, p.b, Tol), "the solution violates a constraint or a bound"),
        Unless(~better, "a cheaper point satisfies all the constraints"),
        Unless(RLe(RAbs(RSub(R(a.cost), v)), RMul(Tol, ValueSize(e, x))), "the cost is not that of the solution"),
        IF o.status = "optimal" THEN {} ELSE {"NOTE not compared"} }

Refused(e, a) ==
  LET p == Pb[e]
      f == Feasible(p.n, p.D, p.d, p.A, p.b, p.wit, RQ(1, 100000))
      \* a linear program may also have no cheapest point
      q == AsRows(p.D, p.d, p.A, p.b, RQ(1, 1000000000), RMul(RQ(1, 1000000), RQ(1, 1000000)))
      bounded == IF ~p.lp THEN TRUE ELSE Search(e, q).status = "optimal"
  IN  Unless(REq(R(a.cost), R(-1)), "failure with a cost")
      \cup (IF f = "yes" THEN IF bounded THEN {"a problem with a solution is not solved"} ELSE {"NOTE unbounded"}
            ELSE IF f = "no" THEN {} ELSE {"NOTE undecided"})

Same(e, a, b) ==
  /\ a.success = b.success
  /\ a.success => RLe(RAbs(RSub(R(a.cost), R(b.cost))), RMul(Tol, ValueSize(e, R(b.x))))

AnswerOk(e, use) ==
  LET a == Trace[e][use]
      why == IF use = "bad" THEN Unless(a.throws, "an unknown solver is accepted")
             ELSE IF a.throws THEN {"exception on a well-formed problem"}
             ELSE IF a.success THEN Good(e, a) ELSE Refused(e, a)
      alt == IF use = "again" /\ ~a.throws /\ ~Trace[e].r.throws
             THEN Unless(Same(e, a, Trace[e].r), "the answer depends on the initial guess") ELSE {}
  IN  {use \o ": " \o x : x \in {y \in why \cup alt : SubSeq(y, 1, 4) # "NOTE"}}
      \cup {y \in why : SubSeq(y, 1, 4) = "NOTE"}
Notes(s) == {r \in s : SubSeq(r, 1, 4) = "NOTE"}

Init == l = 1 /\ k = 1 /\ bad = {}
Step ==
  /\ l <= Len(Trace)
  /\ IF Crashed(l)
     THEN Report(l, {"crash"}) /\ l' = l + 1 /\ k' = 1 /\ bad' = {}
     ELSE LET all == bad \cup AnswerOk(l, Uses[k])
          IN  IF k < Len(Uses) THEN k' = k + 1 /\ bad' = all /\ l' = l
              ELSE /\ Report(l, all \ Notes(all))
                   /\ IF Notes(all) = {} THEN TRUE ELSE Note(l, Notes(all))
                   /\ l' = l + 1 /\ k' = 1 /\ bad' = {}
Finish ==
  /\ l = Len(Trace) + 1 /\ k = 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace),
        success |-> Cardinality({e \in 1..Len(Trace) : ~Crashed(e) /\ Trace[e].r.throws = FALSE /\ Trace[e].r.success}),
        failure |-> Cardinality({e \in 1..Len(Trace) : ~Crashed(e) /\ Trace[e].r.throws = FALSE /\ ~Trace[e].r.success})]))
  /\ k' = 2 /\ UNCHANGED <<l, bad>>
Next == Step \/ Finish
TypeOK == l \in 1..(Len(Trace) + 1) /\ k \in 1..Len(Uses)
=============================================================================
