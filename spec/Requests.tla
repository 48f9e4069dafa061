------------------------------ MODULE Requests ------------------------------
(* Which requests the library answers and which it must refuse (C16).          *)
EXTENDS Families

(* functions that dispatch on the set of imposed boundary conditions *)
Supports(fn, flag) ==
  CASE fn \in {"c", "ddc", "w", "com", "cont", "fixed"} -> flag \in ComFamilies \cup {F_j1}
    [] fn = "fv" -> flag \in ComFamilies
    [] fn \in {"vel", "acc", "jerk", "velc", "wc", "wdc", "wddc", "wjc", "ee"} -> flag \in JerkFamilies
    [] fn \in {"pi", "sym"} -> flag \in Families
    [] OTHER -> TRUE
(* a motion that stops where it likes has no final velocity *)
MustBeStill(flag) == flag = F_c0_dc0_dc1
UsesStates == {"pi", "sym", "w", "com", "cont", "fixed", "ee"}
FlagAnswer(fn, flag, still) ==
  IF ~Supports(fn, flag) \/ (MustBeStill(flag) /\ ~still /\ fn \in UsesStates) THEN "refused" ELSE "ok"

Costs == [acceleration |-> 1, distance |-> 2, velocity |-> 4]
Solvers == {1, 2}
(* req: [mode, nph, nts, flag, cost, solver, still] *)
PlannerAnswer(req) ==
  IF \/ req.nts # req.nph
     \/ req.flag < 0 \/ ~Supports("com", req.flag)
     \/ MustBeStill(req.flag) /\ ~req.still
     \/ req.cost \notin {1, 2, 4}
     \/ req.cost = 4 /\ (Has(req.flag, END_VEL) \/ ~Supports("fv", req.flag))
     \/ req.mode # "fixed" /\ req.solver \notin Solvers
  THEN "refused" ELSE "ok"
SolverAnswer(solver) == IF solver \in Solvers THEN "ok" ELSE "refused"
(* expressions add up when they have the same sizes: <<rows, columns, constants>> *)
SumAnswer(a, b) == IF a = b THEN "ok" ELSE "refused"
=============================================================================
