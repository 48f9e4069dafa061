------------------------------- MODULE SysTrace ------------------------------
(* Conformance of the inequalities made for a list of wrench control points    *)
(*    W_i(x) = A_i x + a_i   and rates of momentum   L_i(y) = B_i y + b_i :    *)
(* the unknown (x, or x and y) satisfies them exactly when the contacts can    *)
(* provide every m (W_i - (g, 0)) + L_i, x satisfies the kinematic rows and y  *)
(* those of the angular momentum.                                              *)
EXTENDS Centroidal, HalfSpaces, TraceBase

VARIABLES l, rows
vars == <<l, rows>>
Transposed(M, n) == TLCEval([j \in 1..n |-> TLCEval([i \in 1..Len(M) |-> M[i][j]])])
Expected(t, K) ==
  LET fg == K.g \o VZero(3)
      ofPoint(i) ==
        LET A == Transposed(R(t.W[i].A), 3)
            a == TLCEval(VScale(K.mass, VSub(R(t.W[i].b), fg)))
            B == IF t.ang THEN Transposed(R(t.L[i].A), 3) ELSE <<>>
            b == IF t.ang THEN R(t.L[i].b) ELSE VZero(6)
            c == TLCEval(VAdd(a, b))
            mH == K.H
        IN  TLCEval([r \in 1..Len(mH) |->
              [a |-> TLCEval([j \in 1..3 |-> RMul(R(-1), RMul(K.mass, VDot(mH[r], A[j])))]
                             \o (IF t.ang THEN [j \in 1..3 |-> RMul(R(-1), VDot(mH[r], B[j]))] ELSE <<>>)),
               b |-> VDot(mH[r], c)]])
      pad(r, first) == IF ~t.ang THEN r ELSE IF first THEN r \o VZero(3) ELSE VZero(3) \o r
      kin == [r \in 1..Len(K.kin) |-> [a |-> pad(K.Kin[r], TRUE), b |-> K.kin[r]]]
      angr == IF t.ang THEN [r \in 1..Len(K.ang) |-> [a |-> pad(K.Ang[r], FALSE), b |-> K.ang[r]]] ELSE <<>>
  IN  TLCEval(FlattenSeqs(TLCEval([i \in 1..Len(t.W) |-> ofPoint(i)])) \o TLCEval(kin) \o TLCEval(angr))
Judge(e) ==
  LET t == Trace[e]
      K == ParseContact(t.contact)
      E == Expected(t, K)
      A == R(t.A)
      b == R(t.b)
      G == TLCEval([i \in 1..Len(b) |-> [a |-> A[i], b |-> b[i]]])
  IN  UNION {
        Unless(~t.fail, "reported infeasible"),
        Unless(t.cols = (IF t.ang THEN 6 ELSE 3), "number of unknowns"),
        IF t.cols # (IF t.ang THEN 6 ELSE 3) THEN {}
        ELSE Unless(Within(E, G), "a constraint is lost")
             \cup Unless(Within(G, E), "a constraint is invented") }

Init == l = 1 /\ rows = 0
Step ==
  /\ l <= Len(Trace)
  /\ Report(l, IF Crashed(l) THEN {"crash"} ELSE Judge(l))
  /\ rows' = rows + (IF Crashed(l) THEN 0 ELSE Len(Trace[l].b))
  /\ l' = l + 1
Finish ==
  /\ l = Len(Trace) + 1
  /\ PrintT("ACCOUNT " \o ToJson([events |-> Len(Trace), rows |-> rows]))
  /\ l' = l + 1 /\ UNCHANGED rows
Next == Step \/ Finish
TypeOK == l \in 1..(Len(Trace) + 2)
=============================================================================
