------------------------------- MODULE BindMC -------------------------------
(* Bindings, all histories up to Depth of a small program: two geometries, one *)
(* contact variable, two problems, two variables for constraints.              *)
EXTENDS Bindings, TLC, IOUtils

I2 == 1..2
Ops == {<<"newE", i, w>> : i, w \in I2} \cup {<<"modE", i, w>> : i, w \in I2} \cup {<<"dropE", 1>>}
       \cup {<<"newK", 1, 1>>, <<"setPhase", 1, 2>>, <<"getPhase", 1, 1>>, <<"noPhase", 1>>, <<"kin", 1, 1>>, <<"dropK", 1>>}
       \cup {<<"newP", p>> : p \in I2} \cup {<<"set", 1, "c0", 1>>, <<"clear", 1>>, <<"dropP", 1>>}
       \cup {<<"add", p, 1>> : p \in I2}
       \cup {<<"newC", 1>>, <<"alias", 1, 1>>, <<"alias", 2, 1>>, <<"assign", 2, 1>>, <<"cflag", 1, 11>>, <<"cflag", 2, 767>>}
       \cup {<<"solve", 1, 1, 1, 0, 0>>, <<"ee", 1, 2, 1>>, <<"hold", 1>>, <<"dropR", 1>>}
Big == IF IOEnv.TIER = "thorough" THEN 2 ELSE 1
Small(h) == /\ Len(h.eqs) <= 2 /\ Len(h.cons) <= Big /\ Len(h.probs) <= 2 /\ Len(h.cstr) <= 1 /\ Len(h.res) <= 1
            /\ \A i \in 1..Len(h.probs) : Len(h.probs[i].contacts) <= 1
Depth == IF IOEnv.TIER = "thorough" THEN 11 ELSE 9 \* operations
MNext == TLCGet("level") <= Depth /\ \E o \in Ops :
  /\ Able(heap, slot, o)
  /\ LET x == Effect(heap, slot, o) IN Small(x.h) /\ heap' = x.h /\ slot' = x.s
Spec == Init /\ [][MNext]_<<heap, slot>>
(* what has been dropped can no longer change through a variable, and what a   *)
(* variable refers to is never lost                                            *)
Alive == \A i \in 1..Len(heap.res) : heap.res[i].fn = "com" => Len(heap.res[i].prob.contacts) = heap.res[i].ts
=============================================================================
