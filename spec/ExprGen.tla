------------------------------- MODULE ExprGen ------------------------------
(* Programs of Expr, drawn by TLC in simulation mode from the shapes alone.    *)
EXTENDS Expr, Integers, Sequences, FiniteSets, TLC

VARIABLES shapes, prog, left, what, seed
vars == <<shapes, prog, left, what, seed>>

(* three usual shapes: a point, a wrench, a problem of nine unknowns; an odd one *)
ShapeSet == {<<3, 3>>, <<6, 3>>, <<3, 9>>, <<2, 5>>}
What == <<"make", "make", "make", "new", "zero", "add", "add", "add", "sub", "sub", "sub", "lmul", "lmul", "rmul", "rmul", "copy",
          "curve2", "curve3", "curve3", "same">>
OpsOf(w) ==
  CASE w \in {"make", "new"} -> {<<w, v, s[1], s[2]>> : v \in Slots, s \in ShapeSet}
    [] w = "zero" -> {<<w, v, n>> : v \in Slots, n \in {2, 3}}
    [] w \in {"add", "sub"} -> {<<w, v, a, b>> : v, a, b \in Slots}
    [] w \in {"lmul", "rmul"} -> {<<w, v, k, a>> : v, a \in Slots, k \in {-7, 0, 2, 4, 9}}
    [] w \in {"copy", "same"} -> {<<w, v, a>> : v, a \in Slots}
    [] w = "curve2" -> {<<w, v, u, a, b>> : v, a, b \in Slots, u \in {0, 3, 8}}
    [] OTHER -> {<<w, v, u, a, b, d>> : v, a, b, d \in Slots, u \in {0, 1, 5, 8}}
(* a shape that is already there is likelier *)
Sensible(o) == IF o[1] = "new" THEN left % 3 = 1 ELSE IF o[1] = "make" THEN (\A v \in Slots : shapes[v] = None) \/ (\E v \in Slots : shapes[v] = <<o[3], o[4]>>) \/ left % 3 = 0
               ELSE IF o[1] = "zero" THEN left % 3 = 1 ELSE TRUE
Can(w) == {o \in OpsOf(w) : IF Possible(shapes, o) THEN Sensible(o) ELSE FALSE}

GInit == shapes = [v \in Slots |-> None] /\ prog = <<>> /\ left = 0 /\ what = "" /\ seed = 0
Begin == seed = 0 /\ seed' \in 1001..1999 /\ left' \in 6..30 /\ UNCHANGED <<shapes, prog, what>>
Choose ==
  /\ seed > 0 /\ left > 0 /\ what = ""
  /\ \E i \in 1..Len(What) : Can(What[i]) # {} /\ what' = What[i]
  /\ UNCHANGED <<shapes, prog, left, seed>>
Act ==
  /\ what # "" /\ what # "end"
  /\ \E o \in Can(what) : shapes' = ShapesAfter(shapes, o) /\ prog' = Append(prog, o)
  /\ left' = left - 1 /\ what' = "" /\ UNCHANGED seed
RECURSIVE Word(_, _), Words(_)
Word(o, i) == (IF i = 1 THEN o[1] ELSE "/" \o ToString(o[i])) \o (IF i = Len(o) THEN ";" ELSE Word(o, i + 1))
Words(p) == IF p = <<>> THEN "" ELSE Word(Head(p), 1) \o Words(Tail(p))
Emit ==
  /\ seed > 0 /\ left = 0 /\ what = ""
  /\ PrintT("SCENARIO kind=expr seed=" \o ToString(seed) \o " ops=" \o Words(prog))
  /\ what' = "end" /\ UNCHANGED <<shapes, prog, left, seed>>
GNext == Begin \/ Choose \/ Act \/ Emit
TypeOK == \A v \in Slots : shapes[v] = None \/ Len(shapes[v]) = 2
=============================================================================
