------------------------------- MODULE BindGen ------------------------------
(* The histories of Python programs that the conformance check of Bindings     *)
(* (C19) explores: behaviours of Bindings, drawn by TLC in simulation mode.    *)
(* A behaviour first prepares some objects, then performs operations of        *)
(* categories drawn one after the other, and finally looks at everything that  *)
(* its variables still refer to.                                               *)
EXTENDS Bindings, TLC

VARIABLES world, \* the table of numbers the program uses: words of Scenario
          phase, \* "world" | "begin" | "choose" | "act" | "look" | "emitted"
          cat, left, prog
vars == <<heap, slot, world, phase, cat, left, prog>>

RECURSIVE Rep_(_, _)
Rep_(n, s) == IF n = 0 THEN <<>> ELSE s \o Rep_(n - 1, s)
W(n, x) == Rep_(n, <<x>>)

(* an operation as a word *)
RECURSIVE Join(_, _)
Join(o, i) == (IF i = 1 THEN "" ELSE "/") \o (IF i = 1 \/ (o[1] \in {"set", "get"} /\ i = 3) THEN o[i] ELSE ToString(o[i]))
              \o (IF i = Len(o) THEN ";" ELSE Join(o, i + 1))
Word(o) == Join(o, 1)
RECURSIVE Words(_)
Words(os) == IF os = <<>> THEN "" ELSE Word(Head(os)) \o Words(Tail(os))

I2 == 1..2
FieldSet == {Fields[i] : i \in 1..6}
Flags == {11, 19, 27, 7, 15, 31, 63, 255}
(* numbers that make sense for a field, and some that may not *)
Right(f) == CHOOSE i \in 1..6 : Fields[i] = f
OpsOf(c) ==
  CASE c = "make" -> {<<"newE", i, w>> : i, w \in I2} \cup {<<"newK", i, e>> : i, e \in I2} \cup {<<"newP", i>> : i \in I2}
    [] c = "con" -> {<<"newC", i>> : i \in I2} \cup {<<"alias", i, p>> : i, p \in I2} \cup {<<"assign", p, i>> : i, p \in I2}
    [] c = "alias" -> {<<"alias", i, p>> : i, p \in I2}
    [] c = "tune" -> {<<"cflag", i, f>> : i \in I2, f \in Flags} \cup {<<"con", i, b>> : i \in I2, b \in 0..1}
                     \cup {<<"cmax", i, m>> : i \in I2, m \in 0..2} \cup {<<"cred", i, m>> : i \in I2, m \in 0..2}
    [] c = "flag" -> {<<"cflag", i, f>> : i \in I2, f \in Flags}
    [] c = "ends" -> {<<"cflag", i, f>> : i \in I2, f \in {255, 767, 2303}}
    [] c = "odd" -> {<<"cflag", i, f>> : i \in I2, f \in {0, 3, 26, 95}}
    [] c = "geo" -> {<<"modE", i, w>> : i, w \in I2} \cup {<<"setPhase", i, e>> : i, e \in I2} \cup {<<"getPhase", i, e>> : i, e \in I2}
                    \cup {<<"noPhase", i>> : i \in I2}
    [] c = "poly" -> {<<f, i, n>> : f \in {"kin", "ang"}, i, n \in I2}
    [] c = "bad" -> {<<f, i, n>> : f \in {"kinBad", "angBad"}, i \in I2, n \in 0..1}
    \* the values of a problem's constraints replaced by others
    [] c = "given" -> {<<"assign", p, i>> : p, i \in I2}
    [] c = "value" -> {<<"set", p, f, Right(f)>> : p \in I2, f \in FieldSet}
    [] c = "other" -> {<<"set", p, f, v>> : p \in I2, f \in FieldSet, v \in {0, 7, 8}}
    [] c = "switch" -> {<<"setU", p, b>> : p \in I2, b \in 0..1} \cup {<<"setCost", p, k>> : p \in I2, k \in {1, 2, 4}}
                       \cup {<<"setRep", p, k>> : p, k \in I2}
    [] c = "contact" -> {<<"add", p, k>> : p, k \in I2}
    [] c = "clear" -> {<<"clear", p>> : p \in I2}
    [] c = "drop" -> {<<d, i>> : d \in {"dropE", "dropK", "dropP", "dropR"}, i \in I2}
    [] c = "look" -> {<<"getE", i>> : i \in I2} \cup {<<g, i>> : g \in {"getKin", "getAng"}, i \in I2}
                     \cup {<<"get", p, f>> : p \in I2, f \in FieldSet} \cup {<<g, p>> : g \in {"getU", "getCost", "getRep"}, p \in I2}
                     \cup {<<"cget", i>> : i \in I2}
    \* a call with as many durations as contacts
    [] c = "call" -> {<<"solve", r, p, n, d, s>> : r, p \in I2, n \in 1..3, d \in 0..2, s \in 0..2}
    [] c = "wrong" -> {<<"solve", r, p, n, 0, 0>> : r, p \in I2, n \in 1..3}
    [] c = "zero" -> {<<"zero", r, e, 1, v, l, u, n, d, k>> : r, e \in I2, v \in {0, 2}, l \in {0, 9}, u \in 0..1, n \in 1..2, d \in 0..2, k \in 0..2}
    [] c = "ee" -> {<<"ee", r, p, n>> : r, p \in I2, n \in I2}
    [] c = "eeq" -> {<<f, p, n>> : f \in {"eeRows", "eeVel", "eeWps"}, p, n \in I2}
    [] c = "eed" -> {<<"eeDist", p, n, w>> : p, n \in I2, w \in 1..Len(Paths)}
    [] c = "again" -> {<<"read", r>> : r \in I2} \cup {<<"hold", r>> : r \in I2} \cup {<<"eval">>}
Sensible(c, o) ==
  CASE c = "call" -> Len(heap.probs[slot.p[o[3]]].contacts) = o[4] /\ heap.probs[slot.p[o[3]]].con.flag \in Flags
    [] c \in {"ee", "eeq", "eed"} -> heap.probs[slot.p[o[IF c = "ee" THEN 3 ELSE 2]]].con.flag \in {255, 767, 2303}
    [] c = "given" -> slot.c[o[3]][1] = "own" /\ ConOf(heap, slot.c[o[3]]) # heap.probs[slot.p[o[2]]].con
    [] c = "bad" -> LET K == heap.cons[slot.k[o[2]]] IN (IF o[1] = "kinBad" THEN K.kin ELSE K.ang) # 0
    [] c = "value" -> heap.probs[slot.p[o[2]]].v[o[3]] # o[4]
    [] OTHER -> TRUE
Can(c) == {o \in OpsOf(c) : IF Able(heap, slot, o) THEN Sensible(c, o) ELSE FALSE}
Cats == W(3, "make") \o W(3, "con") \o W(2, "alias") \o W(3, "tune") \o W(1, "flag") \o W(1, "ends") \o W(1, "odd") \o W(5, "geo")
        \o W(2, "poly") \o W(3, "bad") \o W(2, "given") \o W(2, "value") \o W(2, "other") \o W(2, "switch") \o W(3, "contact") \o W(1, "clear") \o W(3, "drop")
        \o W(3, "look") \o W(8, "call") \o W(1, "wrong") \o W(2, "zero") \o W(2, "ee") \o W(2, "eeq") \o W(3, "eed") \o W(4, "again")

(* ways to begin: nothing; one problem, ready; a problem of two contacts; two problems;  *)
(* an end-effector; a problem and constraints of another bound                *)
Ready(p, k, e, n) == <<<<"newE", e, n>>, <<"newK", k, e>>, <<"kin", k, n>>, <<"ang", k, n>>, <<"newP", p>>>>
  \o [i \in 1..6 |-> <<"set", p, Fields[i], i>>] \o <<<<"add", p, k>>>>
Second(p, k, e) == <<<<"newE", e, 2>>, <<"newK", k, e>>, <<"kin", k, 2>>, <<"add", p, k>>>>
Begins == W(1, <<>>) \o W(3, Ready(1, 1, 1, 1) \o <<<<"alias", 1, 1>>>>) \o W(4, Ready(1, 1, 1, 1) \o Second(1, 2, 2) \o <<<<"alias", 1, 1>>>>)
          \o W(2, Ready(1, 1, 1, 1) \o Ready(2, 2, 2, 2) \o <<<<"alias", 1, 1>>, <<"alias", 2, 2>>>>)
          \o W(3, Ready(1, 1, 1, 1) \o <<<<"alias", 1, 1>>, <<"cflag", 1, 767>>>>)
          \o W(2, Ready(1, 1, 1, 1) \o <<<<"alias", 1, 1>>, <<"cmax", 1, 1>>, <<"newC", 2>>, <<"cmax", 2, 2>>, <<"cflag", 2, 255>>>>)
(* whatever can still be seen at the end *)
Looks(s) ==
  LET on(sq, q) == IF q # 0 THEN sq ELSE <<>>
      two(F(_)) == F(1) \o F(2)
  IN  two(LAMBDA i : on(<<<<"getE", i>>>>, s.e[i]))
      \o two(LAMBDA i : on(<<<<"getKin", i>>, <<"getAng", i>>>>, s.k[i]))
      \o two(LAMBDA i : on([j \in 1..6 |-> <<"get", i, Fields[j]>>] \o <<<<"getU", i>>, <<"getCost", i>>, <<"getRep", i>>>>, s.p[i]))
      \o two(LAMBDA i : IF s.c[i][1] = "no" THEN <<>> ELSE <<<<"cget", i>>>>)
      \o two(LAMBDA i : on(<<<<"alias", 1, i>>, <<"cget", 1>>>>, s.p[i]))
      \o two(LAMBDA i : on(<<<<"read", i>>>>, s.r[i]))
      \o on(<<<<"eval">>>>, s.t)
(* getPhase takes a variable, so it comes last *)
LooksK(s) == (IF s.k[1] # 0 THEN <<<<"getPhase", 1, 1>>>> ELSE <<>>) \o (IF s.k[2] # 0 THEN <<<<"getPhase", 2, 2>>>> ELSE <<>>)

RECURSIVE Perform(_, _, _)
Perform(h, s, os) == IF os = <<>> THEN [h |-> h, s |-> s]
                     ELSE LET x == Effect(h, s, Head(os)) IN Perform(x.h, x.s, Tail(os))

Digits == 0..999
GInit == Init /\ world = <<>> /\ phase = "world" /\ cat = "" /\ left = 0 /\ prog = <<>>
Numbers ==
  /\ phase = "world"
  /\ \E mot \in {"slow", "fast"}, easy \in {"0.1", "0.3", "0.6"}, kin \in {"box", "tight", "mix"}, geom \in {"flat", "stairs", "tilt"} :
       world' = <<mot, easy, kin, geom>>
  /\ phase' = "seed" /\ UNCHANGED <<heap, slot, cat, left, prog>>
Seed ==
  /\ phase = "seed"
  /\ \E n \in Digits : world' = Append(world, ToString(n + 1000))
  /\ phase' = "begin" /\ UNCHANGED <<heap, slot, cat, left, prog>>
Begin ==
  /\ phase = "begin"
  /\ \E i \in 1..Len(Begins), n \in 8..22 :
       /\ prog' = Begins[i] /\ left' = n
       /\ LET x == Perform(heap, slot, Begins[i]) IN heap' = x.h /\ slot' = x.s
  /\ phase' = "choose" /\ UNCHANGED <<world, cat>>
Choose ==
  /\ phase = "choose" /\ left > 0
  /\ \E i \in 1..Len(Cats) : Can(Cats[i]) # {} /\ cat' = Cats[i]
  /\ phase' = "act" /\ UNCHANGED <<heap, slot, world, left, prog>>
Act ==
  /\ phase = "act"
  /\ \E o \in Can(cat) : Do(o) /\ prog' = Append(prog, o)
  /\ left' = left - 1 /\ phase' = "choose" /\ UNCHANGED <<world, cat>>
Emit ==
  /\ phase = "choose" /\ left = 0
  /\ PrintT("SCENARIO kind=py nph=2 mode=disc kin=" \o world[3] \o " mot=" \o world[1] \o " easy=" \o world[2] \o " geom=" \o world[4]
            \o " seed=" \o world[5] \o " ops=" \o Words(prog \o Looks(slot) \o LooksK(slot)))
  /\ phase' = "emitted" /\ UNCHANGED <<heap, slot, world, cat, left, prog>>
GNext == Numbers \/ Seed \/ Begin \/ Choose \/ Act \/ Emit
TypeOK == Refs
=============================================================================
