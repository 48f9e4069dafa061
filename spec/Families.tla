------------------------------ MODULE Families ------------------------------
(* The trajectory families of the library.  A family is selected by a set of   *)
(* flags saying which boundary values are imposed; what is left free is        *)
(* carried by one, three or five free control points.  Everything here is      *)
(* derived from the meaning of the flags: no formula is taken from the code.   *)
EXTENDS Bezier, FiniteSets

INIT_POS == 1
INIT_VEL == 2
INIT_ACC == 4
END_POS == 8
END_VEL == 16
END_ACC == 32
INIT_JERK == 64
END_JERK == 128
TWO_FREE == 256
THREE_FREE == 512
FOUR_FREE == 1024
FIVE_FREE == 2048

Has(flag, bit) == (flag \div bit) % 2 = 1

(* imposed derivatives at the start and at the end, as sets of orders *)
InitOrders(flag) ==
  {k \in 0..3 : Has(flag, <<INIT_POS, INIT_VEL, INIT_ACC, INIT_JERK>>[k + 1])}
EndOrders(flag) ==
  {k \in 0..3 : Has(flag, <<END_POS, END_VEL, END_ACC, END_JERK>>[k + 1])}

NumFree(flag) ==
  IF Has(flag, FIVE_FREE) THEN 5 ELSE IF Has(flag, FOUR_FREE) THEN 4
  ELSE IF Has(flag, THREE_FREE) THEN 3 ELSE IF Has(flag, TWO_FREE) THEN 2 ELSE 1

F_c0_dc0_c1 == INIT_POS + INIT_VEL + END_POS
F_c0_dc0_dc1 == INIT_POS + INIT_VEL + END_VEL
F_c0_dc0_dc1_c1 == INIT_POS + INIT_VEL + END_POS + END_VEL
F_c0_dc0_ddc0 == INIT_POS + INIT_VEL + INIT_ACC
F_c0_dc0_ddc0_c1 == F_c0_dc0_ddc0 + END_POS
F_c0_dc0_ddc0_dc1_c1 == F_c0_dc0_ddc0 + END_POS + END_VEL
F_c0_dc0_ddc0_ddc1_dc1_c1 == F_c0_dc0_ddc0_dc1_c1 + END_ACC
F_j1 == F_c0_dc0_ddc0_ddc1_dc1_c1 + INIT_JERK + END_JERK
F_x3 == F_j1 + THREE_FREE
F_x5 == F_j1 + FIVE_FREE

ComFamilies == {F_c0_dc0_c1, F_c0_dc0_dc1, F_c0_dc0_dc1_c1, F_c0_dc0_ddc0,
                F_c0_dc0_ddc0_c1, F_c0_dc0_ddc0_dc1_c1, F_c0_dc0_ddc0_ddc1_dc1_c1}
JerkFamilies == {F_j1, F_x3, F_x5}
Families == ComFamilies \cup JerkFamilies

(* an imposed final velocity without an imposed final position: the curve      *)
(* stops there (final velocity must be 0), the free point being repeated       *)
Stops(flag) == Has(flag, END_VEL) /\ ~Has(flag, END_POS)

NumInit(flag) == Cardinality(InitOrders(flag))
NumEnd(flag) == IF Stops(flag) THEN 1 ELSE Cardinality(EndOrders(flag))
Degree(flag) == NumInit(flag) + NumFree(flag) + NumEnd(flag) - 1
(* index (from 1) of the first free control point *)
FirstFree(flag) == NumInit(flag) + 1

(* bc: [c0, dc0, ddc0, j0, c1, dc1, ddc1, j1], each a vector.  The k-th        *)
(* derivative at 0 of a degree n curve of duration T is                        *)
(*    n!/(n-k)! / T^k * sum_j (-1)^(k-j) C(k,j) P_j                            *)
Fall(n, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN n ELSE IF k = 2 THEN n * (n - 1)
              ELSE n * (n - 1) * (n - 2)
InitVal(bc, k) == <<bc.c0, bc.dc0, bc.ddc0, bc.j0>>[k + 1]
EndVal(bc, k) == <<bc.c1, bc.dc1, bc.ddc1, bc.j1>>[k + 1]

RECURSIVE InitPts(_, _, _, _, _)
InitPts(n, T, bc, cnt, acc) ==
  LET k == Len(acc)
      v == VScale(RDiv(RPow(T, k), R(Fall(n, k))), InitVal(bc, k))
      rest == IF k = 0 THEN VZero(3)
              ELSE LinComb([j \in 1..k |-> R((IF (k - j + 1) % 2 = 0 THEN 1 ELSE -1) * C(k, j - 1))], acc)
  IN  IF k = cnt THEN acc ELSE InitPts(n, T, bc, cnt, Append(acc, VSub(v, rest)))

(* from the end: Q_j = P_{n-j} has derivatives (-1)^k EndVal(k) *)
RECURSIVE EndPts(_, _, _, _, _)
EndPts(n, T, bc, cnt, acc) ==
  LET k == Len(acc)
      s == IF k % 2 = 0 THEN 1 ELSE -1
      v == VScale(RDiv(RMul(R(s), RPow(T, k)), R(Fall(n, k))), EndVal(bc, k))
      rest == IF k = 0 THEN VZero(3)
              ELSE LinComb([j \in 1..k |-> R((IF (k - j + 1) % 2 = 0 THEN 1 ELSE -1) * C(k, j - 1))], acc)
  IN  IF k = cnt THEN acc ELSE EndPts(n, T, bc, cnt, Append(acc, VSub(v, rest)))

Reverse3(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* control points of the curve whose free points are xs (a sequence of         *)
(* NumFree(flag) vectors)                                                      *)
ControlPoints(flag, bc, T, xs) ==
  LET n == Degree(flag)
      ini == InitPts(n, T, bc, NumInit(flag), <<>>)
      fin == IF Stops(flag) THEN <<xs[1]>>
             ELSE Reverse3(EndPts(n, T, bc, NumEnd(flag), <<>>))
  IN  TLCEval(ini \o xs \o fin)

Zeros3 == VZero(3)
=============================================================================
