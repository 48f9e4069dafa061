------------------------------- MODULE ActiveSet ------------------------------
(* The dual active-set method of Goldfarb and Idnani, as a state machine.      *)
(*                                                                             *)
(*     minimise 1/2 x'Hx + g'x   subject to   CE x + ce = 0,  CI x + ci >= 0   *)
(*                                                                             *)
(* The state is the point x, the active set act (rows with their multipliers), *)
(* and the row p that is being added with the multiplier up gathered so far.   *)
(* Where the implementation has a rule (which violated row is taken next,      *)
(* which of several blocking rows is dropped, how a tie between a full and a   *)
(* partial step is resolved) the specification allows every choice, so what is *)
(* shown here does not depend on the rule.  The starting point, steps and      *)
(* multipliers are exact rationals: Rational.tla's definitions, no override.   *)
(* All problems of SmallQP are explored.                                       *)
EXTENDS QP, SmallQP, IOUtils

Tier == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER ELSE "quick"

VARIABLES pb, x, act, pc, p, up, n
vars == <<pb, x, act, pc, p, up, n>>

N == 2
RI(s) == [i \in 1..Len(s) |-> R(s[i])]
Mk(h, gr, eq, rs) ==
  [H |-> << <<R(h[1]), R(h[2])>>, <<R(h[3]), R(h[4])>> >>, g |-> RI(gr),
   CE |-> IF eq = <<>> THEN <<>> ELSE << <<R(eq[1]), R(eq[2])>> >>,
   ce |-> IF eq = <<>> THEN <<>> ELSE <<R(eq[3])>>,
   CI |-> [i \in 1..Len(rs) |-> <<R(rs[i][1]), R(rs[i][2])>>],
   ci |-> [i \in 1..Len(rs) |-> R(rs[i][3])]]
(* the order of the rows does not matter here: any row may be taken next *)
Few == {<<>>} \cup {<<Rows[i]>> : i \in 1..Len(Rows)}
       \cup {<<Rows[t[1]], Rows[t[2]]>> : t \in {t \in (1..Len(Rows)) \X (1..Len(Rows)) : t[1] <= t[2]}}
Triples(B) ==
  LET I == {i \in 1..Len(Rows) : Rows[i][3] \in B}
  IN  {<<Rows[t[1]], Rows[t[2]], Rows[t[3]]>> : t \in {t \in I \X I \X I : t[1] < t[2] /\ t[2] < t[3]}}

-----------------------------------------------------------------------------
(* linear algebra on at most two active rows *)
Det(M) == IF Len(M) = 1 THEN M[1][1] ELSE RSub(RMul(M[1][1], M[2][2]), RMul(M[1][2], M[2][1]))
SolveLin(M, v) ==
  LET d == Det(M)
  IN  IF Len(M) = 1 THEN <<RDiv(v[1], d)>>
      ELSE << RDiv(RSub(RMul(v[1], M[2][2]), RMul(M[1][2], v[2])), d),
              RDiv(RSub(RMul(M[1][1], v[2]), RMul(v[1], M[2][1])), d) >>
Hinv(v) == SolveLin(pb.H, v)

Normal(id) == IF id < 0 THEN pb.CE[-id] ELSE pb.CI[id]
Slack(id, y) == RAdd(VDot(Normal(id), y), IF id < 0 THEN pb.ce[-id] ELSE pb.ci[id])
Ids == {act[k].id : k \in 1..Len(act)}
Cost(y) == QuadCost(pb.H, pb.g, y)

Gram(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows) |-> VDot(rows[i], Hinv(rows[j]))]]
(* r: change of the multipliers of the active rows, z: direction of x, per     *)
(* unit of multiplier of row id                                                *)
Dir(id) ==
  LET ns == [k \in 1..Len(act) |-> Normal(act[k].id)]
      np == Normal(id)
      hn == Hinv(np)
      r == IF Len(act) = 0 THEN <<>> ELSE SolveLin(Gram(ns), [k \in 1..Len(act) |-> VDot(ns[k], hn)])
      z == IF Len(act) = 0 THEN hn ELSE Hinv(VSub(np, LinComb(r, ns)))
  IN  [r |-> r, z |-> z, zero |-> \A i \in 1..N : REq(z[i], R(0))]

-----------------------------------------------------------------------------
Init ==
  /\ \E h \in 1..Len(Hessians), gr \in 1..Len(Gradients), eq \in 1..Len(Equalities) :
       \E rs \in (IF Tier = "quick"
                  THEN (IF h = 1 THEN {} ELSE IF gr = 1 /\ eq = 1 THEN Few \cup Triples({-1, 0}) ELSE Few)
                  ELSE Few \cup Triples({-1, 0, 1})) :
         pb = Mk(Hessians[h], Gradients[gr], Equalities[eq], rs)
  /\ x = VNeg(Hinv(pb.g))
  /\ act = <<>> /\ pc = "eq" /\ p = 0 /\ up = R(0) /\ n = 0

(* equalities enter first, by full steps of either sign *)
AddEquality ==
  /\ pc = "eq"
  /\ IF Len(act) = Len(pb.CE) THEN pc' = "pick" /\ UNCHANGED <<x, act>>
     ELSE LET id == -(Len(act) + 1)
              d == Dir(id)
              t == RDiv(RNeg(Slack(id, x)), VDot(d.z, Normal(id)))
          IN  IF d.zero THEN pc' = "dependent" /\ UNCHANGED <<x, act>>
              ELSE /\ x' = VAdd(x, VScale(t, d.z))
                   /\ act' = Append([k \in 1..Len(act) |-> [act[k] EXCEPT !.u = RSub(@, RMul(t, d.r[k]))]], [id |-> id, u |-> t])
                   /\ pc' = "eq"
  /\ UNCHANGED <<pb, p, up, n>>

Violated == {i \in 1..Len(pb.CI) : RLt(Slack(i, x), R(0))}
Pick ==
  /\ pc = "pick"
  /\ IF Violated = {} THEN pc' = "optimal" /\ UNCHANGED <<p, up>>
     ELSE \E i \in Violated : p' = i /\ up' = R(0) /\ pc' = "step"
  /\ UNCHANGED <<pb, x, act, n>>

Move(t, d) ==
  /\ x' = IF d.zero THEN x ELSE VAdd(x, VScale(t, d.z))
  /\ up' = RAdd(up, t)
Shifted(t, d) == [k \in 1..Len(act) |-> [act[k] EXCEPT !.u = RSub(@, RMul(t, d.r[k]))]]
StepToP ==
  /\ pc = "step"
  /\ LET d == Dir(p)
         block == {k \in 1..Len(act) : act[k].id > 0 /\ RLt(R(0), d.r[k])}
         q(k) == RDiv(act[k].u, d.r[k])
         first == {k \in block : \A j \in block : RLe(q(k), q(j))}
         t2 == RDiv(RNeg(Slack(p, x)), VDot(d.z, Normal(p)))
     IN  \/ /\ d.zero /\ block = {}
            /\ pc' = "infeasible" /\ UNCHANGED <<x, act, p, up>>
         \/ /\ ~d.zero /\ \A k \in first : RLe(t2, q(k)) \* full step
            /\ Move(t2, d)
            /\ act' = Append(Shifted(t2, d), [id |-> p, u |-> RAdd(up, t2)])
            /\ pc' = "pick" /\ UNCHANGED p
         \/ \E k \in first : \* partial step, row k leaves
            /\ d.zero \/ RLe(q(k), t2)
            /\ Move(q(k), d)
            /\ LET s == Shifted(q(k), d) IN act' = SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
            /\ pc' = "step" /\ UNCHANGED p
  /\ n' = n + 1 /\ UNCHANGED pb
Next == AddEquality \/ Pick \/ StepToP
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Signed == \* the rows that hold x where it is
  [k \in 1..Len(act) |-> [n |-> Normal(act[k].id), mu |-> act[k].u, ineq |-> act[k].id > 0]]
  \o (IF pc = "step" THEN << [n |-> Normal(p), mu |-> up, ineq |-> TRUE] >> ELSE <<>>)
TypeOK ==
  /\ pc \in {"eq", "pick", "step", "optimal", "infeasible", "dependent"}
  /\ Len(act) <= N /\ Cardinality(Ids) = Len(act)
  /\ \A k \in 1..Len(act) : act[k].id \in (-Len(pb.CE))..Len(pb.CI) \ {0}
Independent == Len(act) > 0 => ~REq(Det(Gram([k \in 1..Len(act) |-> Normal(act[k].id)])), R(0))
DualFeasible == SignsOk(Signed, R(0))
IsStationary == Stationary(x, pb.H, pb.g, Signed, R(0))
Tight == \A k \in 1..Len(act) : REq(Slack(act[k].id, x), R(0))
(* a bound on the number of steps: no active set comes back *)
Terminates == n <= 8
(* what the trace specification demands of an answer *)
Solved == pc = "optimal" =>
  Satisfies(x, pb.CE, VNeg(pb.ce), [i \in 1..Len(pb.CI) |-> VNeg(pb.CI[i])], pb.ci, R(0))
(* a refusal has a proof: multipliers of rows that add up to 0 >= positive *)
Refused == pc = "infeasible" =>
  LET r == Dir(p).r
      \* sum_k y_k n_k = 0 with y_p = 1, y_k = -r_k
      comb == IF Len(act) = 0 THEN Normal(p)
              ELSE VSub(Normal(p), LinComb(r, [k \in 1..Len(act) |-> Normal(act[k].id)]))
      rhs(id) == IF id < 0 THEN pb.ce[-id] ELSE pb.ci[id]
      tot == RSub(rhs(p), VSum([k \in 1..Len(act) |-> RMul(r[k], rhs(act[k].id))]))
  IN  /\ \A i \in 1..N : REq(comb[i], R(0))
      /\ \A k \in 1..Len(act) : act[k].id > 0 => RLe(r[k], R(0))
      /\ RLt(tot, R(0))
(* it only stops with an answer (one equality is never dependent) *)
Progress == pc = "dependent" => FALSE
(* the lower bound on the optimal value grows *)
Grows == pc \in {"pick", "step"} => RLe(Cost(x), QuadCost(pb.H, pb.g, x'))
Ascends == [][Grows]_vars
=============================================================================
