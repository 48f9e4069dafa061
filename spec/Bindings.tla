------------------------------ MODULE Bindings ------------------------------
(* The Python interface as a program sees it (C19): objects that are created,  *)
(* read, modified, shared and dropped, and calls that are answered as the      *)
(* library answers them for what the objects hold.  Numbers are named: an      *)
(* identifier stands for the k-th vector, polytope, contact... of a table.     *)
(*   heap.eqs    contact geometries: which one it holds now (0: none yet)      *)
(*   heap.cons   ContactData: the geometry it refers to, its polytopes         *)
(*   heap.probs  ProblemData: values, constraints, and its own copies of the   *)
(*               contacts that were added to it                                *)
(*   heap.cstr   Constraints that are not part of a problem                    *)
(*   heap.res    results: what was asked                                       *)
(*   slot        the variables of the program: what each refers to; a slot     *)
(*               that refers to something keeps all it needs alive             *)
EXTENDS Requests, Sequences

VARIABLES heap, slot

Fields == <<"c0", "dc0", "ddc0", "c1", "dc1", "ddc1">>
NoCon == [flag |-> 27, on |-> FALSE, max |-> 0, red |-> 0] \* 0: the default numbers
(* paths through the named points; a path may stay where it is for a while *)
Paths == << <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<1, 1, 2, 2, 2, 3, 4, 4, 5, 1, 1>>, <<4, 4, 4, 4>>, <<2, 7, 7>> >>
NewCons(e) == [eq |-> e, kin |-> 0, ang |-> 0]
NewProb == [v |-> [f \in {Fields[i] : i \in 1..6} |-> 0], ang |-> FALSE, cost |-> 1, rep |-> 1, con |-> NoCon, contacts |-> <<>>]
Heap0 == [eqs |-> <<>>, cons |-> <<>>, probs |-> <<>>, cstr |-> <<>>, res |-> <<>>]
Slot0 == [e |-> <<0, 0>>, k |-> <<0, 0>>, p |-> <<0, 0>>, c |-> << <<"no", 0>>, <<"no", 0>> >>, r |-> <<0, 0>>, t |-> 0]

Init == heap = Heap0 /\ slot = Slot0

(* Constraints are either an object of their own or a part of a problem *)
ConOf(h, ref) == IF ref[1] = "own" THEN h.cstr[ref[2]] ELSE h.probs[ref[2]].con
SetCon(h, ref, con) == IF ref[1] = "own" THEN [h EXCEPT !.cstr[ref[2]] = con] ELSE [h EXCEPT !.probs[ref[2]].con = con]

(* An operation o = <<name, argument...>> from heap h and slots s: what can be *)
(* seen of it, and what it leaves behind                                       *)
Is(h, s, out) == [h |-> h, s |-> s, out |-> out]
Ok == [k |-> "ok"]
Error == [k |-> "error"]
(* what the library refuses, it refuses in Python too: an exception, and       *)
(* nothing has changed                                                         *)
ComRefused(p, ts, dt, sol) ==
  PlannerAnswer([mode |-> IF dt = 0 THEN "cont" ELSE "disc", nph |-> Len(p.contacts), nts |-> ts, flag |-> p.con.flag,
                 cost |-> p.cost, solver |-> IF sol = 0 THEN 1 ELSE sol, still |-> p.v["dc1"] = 0]) = "refused"
EERefused(p, fn) == FlagAnswer(IF fn = "eeWps" THEN "pi" ELSE "ee", p.con.flag, p.v["dc1"] = 0) = "refused"
Give(h, s, r, res) == \* the result goes to variable r
  Is([h EXCEPT !.res = Append(@, res)], [s EXCEPT !.r[r] = Len(h.res) + 1], [k |-> "answer", n |-> Len(h.res) + 1])
Effect(h, s, o) ==
  CASE o[1] = "newE" -> \* e w: a geometry with contacts w
         Is([h EXCEPT !.eqs = Append(@, o[3])], [s EXCEPT !.e[o[2]] = Len(h.eqs) + 1], Ok)
    [] o[1] = "modE" -> \* e w: new contacts for the same geometry object
         Is([h EXCEPT !.eqs[s.e[o[2]]] = o[3]], s, Ok)
    [] o[1] = "getE" -> Is(h, s, [k |-> "geo", w |-> h.eqs[s.e[o[2]]]])
    [] o[1] = "newK" -> \* k e: ContactData(geometry)
         Is([h EXCEPT !.cons = Append(@, NewCons(s.e[o[3]]))], [s EXCEPT !.k[o[2]] = Len(h.cons) + 1], Ok)
    [] o[1] = "setPhase" -> Is([h EXCEPT !.cons[s.k[o[2]]].eq = s.e[o[3]]], s, Ok)
    [] o[1] = "noPhase" -> Is([h EXCEPT !.cons[s.k[o[2]]].eq = 0], s, Ok)
    [] o[1] = "getPhase" -> \* k e: e refers to the geometry of the contact from now on
         IF h.cons[s.k[o[2]]].eq = 0 THEN Is(h, s, Error)
         ELSE Is(h, [s EXCEPT !.e[o[3]] = h.cons[s.k[o[2]]].eq], [k |-> "geo", w |-> h.eqs[h.cons[s.k[o[2]]].eq]])
    [] o[1] = "kin" -> Is([h EXCEPT !.cons[s.k[o[2]]].kin = o[3]], s, Ok)
    [] o[1] = "ang" -> Is([h EXCEPT !.cons[s.k[o[2]]].ang = o[3]], s, Ok)
    [] o[1] \in {"kinBad", "angBad"} -> Is(h, s, Error) \* sizes that do not match: refused, nothing changes
    [] o[1] = "getKin" ->
         LET n == h.cons[s.k[o[2]]].kin IN Is(h, s, IF n = 0 THEN Error ELSE [k |-> "kin", n |-> n])
    [] o[1] = "getAng" ->
         LET n == h.cons[s.k[o[2]]].ang IN Is(h, s, IF n = 0 THEN Error ELSE [k |-> "ang", n |-> n])
    [] o[1] = "newP" -> Is([h EXCEPT !.probs = Append(@, NewProb)], [s EXCEPT !.p[o[2]] = Len(h.probs) + 1], Ok)
    [] o[1] = "set" -> Is([h EXCEPT !.probs[s.p[o[2]]].v[o[3]] = o[4]], s, Ok)
    [] o[1] = "get" -> Is(h, s, [k |-> "vec", v |-> h.probs[s.p[o[2]]].v[o[3]]])
    [] o[1] = "setU" -> Is([h EXCEPT !.probs[s.p[o[2]]].ang = (o[3] = 1)], s, Ok)
    [] o[1] = "getU" -> Is(h, s, [k |-> "bool", b |-> h.probs[s.p[o[2]]].ang])
    [] o[1] = "setCost" -> Is([h EXCEPT !.probs[s.p[o[2]]].cost = o[3]], s, Ok)
    [] o[1] = "getCost" -> Is(h, s, [k |-> "int", i |-> h.probs[s.p[o[2]]].cost])
    [] o[1] = "setRep" -> Is([h EXCEPT !.probs[s.p[o[2]]].rep = o[3]], s, Ok)
    [] o[1] = "getRep" -> Is(h, s, [k |-> "int", i |-> h.probs[s.p[o[2]]].rep])
    [] o[1] = "newC" -> Is([h EXCEPT !.cstr = Append(@, NoCon)], [s EXCEPT !.c[o[2]] = <<"own", Len(h.cstr) + 1>>], Ok)
    [] o[1] = "alias" -> \* c p: c is the constraints of the problem itself
         Is(h, [s EXCEPT !.c[o[2]] = <<"of", s.p[o[3]]>>], Ok)
    [] o[1] = "assign" -> \* p c: the problem takes over the values of c
         Is([h EXCEPT !.probs[s.p[o[2]]].con = ConOf(h, s.c[o[3]])], s, Ok)
    [] o[1] = "cflag" -> Is(SetCon(h, s.c[o[2]], [ConOf(h, s.c[o[2]]) EXCEPT !.flag = o[3]]), s, Ok)
    [] o[1] = "con" -> Is(SetCon(h, s.c[o[2]], [ConOf(h, s.c[o[2]]) EXCEPT !.on = (o[3] = 1)]), s, Ok)
    [] o[1] = "cmax" -> Is(SetCon(h, s.c[o[2]], [ConOf(h, s.c[o[2]]) EXCEPT !.max = o[3]]), s, Ok)
    [] o[1] = "cred" -> Is(SetCon(h, s.c[o[2]], [ConOf(h, s.c[o[2]]) EXCEPT !.red = o[3]]), s, Ok)
    [] o[1] = "cget" ->
         LET c == ConOf(h, s.c[o[2]])
         IN  Is(h, s, [k |-> "con", con |-> c])
    [] o[1] = "add" -> \* p k: a copy, geometry included
         LET K == h.cons[s.k[o[3]]]
         IN  Is([h EXCEPT !.probs[s.p[o[2]]].contacts = Append(@, [w |-> h.eqs[K.eq], kin |-> K.kin, ang |-> K.ang])], s, Ok)
    [] o[1] = "clear" -> Is([h EXCEPT !.probs[s.p[o[2]]].contacts = <<>>], s, Ok)
    \* the variable is forgotten; others may still refer to what it referred to
    [] o[1] = "dropE" -> Is(h, [s EXCEPT !.e[o[2]] = 0], Ok)
    [] o[1] = "dropK" -> Is(h, [s EXCEPT !.k[o[2]] = 0], Ok)
    [] o[1] = "dropP" -> Is(h, [s EXCEPT !.p[o[2]] = 0], Ok)
    \* calls: the answer is that of the library for what the objects hold now
    [] o[1] = "solve" -> \* r p ts dt solver (0: not given)
         LET P == h.probs[s.p[o[3]]]
         IN  IF ComRefused(P, o[4], o[5], o[6]) THEN Is(h, s, Error)
             ELSE Give(h, s, o[2], [fn |-> "com", prob |-> P, ts |-> o[4], dt |-> o[5], sol |-> o[6]])
    [] o[1] = "zero" -> \* r e com dcom l0 ang ts dt kin (0: not given)
         Give(h, s, o[2], [fn |-> "zero", w |-> h.eqs[s.e[o[3]]], c0 |-> o[4], dc0 |-> o[5], l0 |-> o[6],
                           ang |-> (o[7] = 1), ts |-> o[8], dt |-> o[9], kin |-> o[10]])
    [] o[1] = "ee" -> \* r p ts
         LET P == h.probs[s.p[o[3]]]
         IN  IF EERefused(P, o[1]) THEN Is(h, s, Error) ELSE Give(h, s, o[2], [fn |-> "ee", prob |-> P, ts |-> o[4]])
    [] o[1] \in {"eeRows", "eeVel", "eeDist", "eeWps"} -> \* p ts, and the path to stay close to
         LET P == h.probs[s.p[o[2]]]
         IN  Is(h, s, IF EERefused(P, o[1]) THEN Error
                      ELSE [k |-> o[1], prob |-> P, ts |-> o[3], path |-> IF o[1] = "eeDist" THEN Paths[o[4]] ELSE <<>>])
    \* an answer is what it was when it was given
    [] o[1] = "read" -> Is(h, s, [k |-> "again", n |-> s.r[o[2]]])
    [] o[1] = "hold" -> Is(h, [s EXCEPT !.t = s.r[o[2]]], Ok) \* keep the trajectory of the result
    [] o[1] = "eval" -> Is(h, s, [k |-> "curve", n |-> s.t])
    [] o[1] = "dropR" -> Is(h, [s EXCEPT !.r[o[2]] = 0], Ok)

(* which operations a program may perform *)
Able(h, s, o) ==
  LET e(i) == s.e[i] # 0  k(i) == s.k[i] # 0  p(i) == s.p[i] # 0  c(i) == s.c[i][1] # "no"
  IN  CASE o[1] \in {"newE", "newP", "newC"} -> TRUE
        [] o[1] \in {"modE", "getE", "dropE"} -> e(o[2])
        [] o[1] = "newK" -> e(o[3])
        [] o[1] = "setPhase" -> k(o[2]) /\ e(o[3])
        [] o[1] \in {"noPhase", "getPhase", "kin", "ang", "kinBad", "angBad", "getKin", "getAng", "dropK"} -> k(o[2])
        [] o[1] \in {"set", "get", "setU", "getU", "setCost", "getCost", "setRep", "getRep", "clear", "dropP"} -> p(o[2])
        [] o[1] = "alias" -> p(o[3])
        [] o[1] = "assign" -> p(o[2]) /\ c(o[3])
        [] o[1] \in {"cflag", "con", "cmax", "cred", "cget"} -> c(o[2])
        \* copying a contact without a geometry, or that has no contacts yet, is not a request
        [] o[1] = "add" -> p(o[2]) /\ k(o[3]) /\ (IF s.k[o[3]] = 0 THEN FALSE ELSE h.cons[s.k[o[3]]].eq # 0)
        \* a discretised call with contact forces is not a request
        [] o[1] = "solve" -> p(o[3]) /\ (IF s.p[o[3]] = 0 THEN FALSE ELSE h.probs[s.p[o[3]]].rep = 1 \/ o[5] = 0)
        [] o[1] = "zero" -> e(o[3])
        [] o[1] = "ee" -> p(o[3])
        [] o[1] \in {"eeRows", "eeVel", "eeDist", "eeWps"} -> p(o[2])
        [] o[1] \in {"read", "hold", "dropR"} -> s.r[o[2]] # 0
        [] o[1] = "eval" -> s.t # 0

Do(o) ==
  /\ Able(heap, slot, o)
  /\ LET x == Effect(heap, slot, o) IN heap' = x.h /\ slot' = x.s

-----------------------------------------------------------------------------
(* What the interface owes its users, whatever the program does *)
Refs ==
  /\ \A i \in 1..2 : slot.e[i] \in 0..Len(heap.eqs) /\ slot.k[i] \in 0..Len(heap.cons) /\ slot.p[i] \in 0..Len(heap.probs)
                     /\ slot.r[i] \in 0..Len(heap.res)
                     /\ \/ slot.c[i][1] = "no"
                        \/ slot.c[i][1] = "own" /\ slot.c[i][2] \in 1..Len(heap.cstr)
                        \/ slot.c[i][1] = "of" /\ slot.c[i][2] \in 1..Len(heap.probs)
  /\ slot.t \in 0..Len(heap.res)
  /\ \A i \in 1..Len(heap.cons) : heap.cons[i].eq \in 0..Len(heap.eqs)
(* results never change, nor do the contacts that a problem has taken, whatever *)
(* happens to the contact they were copied from                                *)
Results == [][\A n \in 1..Len(heap.res) : heap'.res[n] = heap.res[n]]_<<heap, slot>>
Copies == [][\A n \in 1..Len(heap.probs) :
              LET a == heap.probs[n].contacts  b == heap'.probs[n].contacts
              IN  b = <<>> \/ (Len(b) >= Len(a) /\ \A i \in 1..Len(a) : b[i] = a[i])]_<<heap, slot>>
(* only the object that is named is modified *)
Frame == [][Cardinality({n \in 1..Len(heap.probs) : heap'.probs[n] # heap.probs[n]})
            + Cardinality({n \in 1..Len(heap.cons) : heap'.cons[n] # heap.cons[n]})
            + Cardinality({n \in 1..Len(heap.eqs) : heap'.eqs[n] # heap.eqs[n]})
            + Cardinality({n \in 1..Len(heap.cstr) : heap'.cstr[n] # heap.cstr[n]}) <= 1]_<<heap, slot>>
=============================================================================
