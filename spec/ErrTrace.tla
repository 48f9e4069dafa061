------------------------------- MODULE ErrTrace ------------------------------
(* Conformance of refusals with Requests: every recorded request is answered   *)
(* ("ok") or refused with a runtime error ("refused") as the model says, never *)
(* anything else, and a good request made afterwards gets the answer it had    *)
(* before.  A behaviour visits the events one after another.                   *)
EXTENDS Requests, TraceBase

VARIABLES l, bad
vars == <<l, bad>>

FlagCall(e, i) ==
  LET q == Trace[e].calls[i]
  IN  UNION {Unless(q.out[fn] = FlagAnswer(fn, q.flag, q.still),
                    fn \o " with flags " \o ToString(q.flag) \o ": " \o q.out[fn]) : fn \in DOMAIN q.out}
Flags(e) ==
  UNION {FlagCall(e, i) : i \in 1..Len(Trace[e].calls)}
  \cup Unless(Trace[e].same, "refusals changed the answer to a good request")
Ops(e) ==
  LET ev == Trace[e]
  IN  Unless(ev.plus = SumAnswer(ev.a, ev.b), "sum of expressions: " \o ev.plus)
      \cup Unless(ev.minus = SumAnswer(ev.a, ev.b), "difference of expressions: " \o ev.minus)
Args(e) ==
  LET ev == Trace[e]
      want == PlannerAnswer(ev)
  IN  Unless(ev.out = want, "planner: " \o ev.out \o " instead of " \o want)
      \cup Unless(ev.again = want, "planner, asked again: " \o ev.again \o " instead of " \o want)
      \cup Unless(ev.raw = SolverAnswer(ev.solver), "solver: " \o ev.raw)
      \cup Unless(ev.same, "a refusal changed the answer to a good request")
Judged(e) ==
  CASE Crashed(e) -> {"crash"}
    [] Trace[e].ev = "errf" -> Flags(e)
    [] Trace[e].ev = "erro" -> Ops(e)
    [] OTHER -> Args(e)

Init == l = 1 /\ bad = {}
Judge ==
  /\ l <= Len(Trace)
  /\ bad' = Judged(l)
  /\ Report(l, bad')
  /\ l' = l + 1
Count(out) == Cardinality({e \in 1..Len(Trace) : ~Crashed(e) /\ Trace[e].ev = "erra" /\ Trace[e].out = out})
Finish ==
  /\ l = Len(Trace) + 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace), answered |-> Count("ok"), refused |-> Count("refused")]))
  /\ l' = l + 1 /\ bad' = {}
Next == Judge \/ Finish
Spec == Init /\ [][Next]_vars
TypeOK == l \in 1..(Len(Trace) + 2)
=============================================================================
