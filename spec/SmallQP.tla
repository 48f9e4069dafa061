------------------------------- MODULE SmallQP -------------------------------
(* A finite family of quadratic programs in two variables with small integer   *)
(* coefficients: every arrangement of up to three inequalities whose normals   *)
(* are the eight directions of a grid -- parallel, opposite, repeated,         *)
(* degenerate and contradictory rows all occur --, with or without an          *)
(* equality.  The same family is model-checked (ActiveSet) and run on the      *)
(* implementation (Scenario, KIND = "qpx").                                    *)
EXTENDS Integers, Sequences

Hessians == << <<1, 0, 0, 1>>, <<2, 1, 1, 2>> >>
Gradients == << <<2, 1>>, <<-1, 2>>, <<0, 0>> >>
Equalities == << <<>>, <<1, 0, 0>>, <<1, 1, -1>>, <<-1, 2, 1>> >>
(* a1 x1 + a2 x2 + b >= 0 *)
Rows ==
  LET e(i) == <<((i \div 3) % 3) - 1, (i % 3) - 1, (i \div 9) - 1>>
      all == [i \in 1..27 |-> e(i - 1)]
  IN  SelectSeq(all, LAMBDA r : r[1] # 0 \/ r[2] # 0)
=============================================================================
