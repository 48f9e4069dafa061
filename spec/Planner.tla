-------------------------------- MODULE Planner ------------------------------
(* The transition planner as a state machine, at the level at which a call is  *)
(* worked through: the request is checked, a place is made for every row, the  *)
(* samples are visited in the order of time with the contact phase in force    *)
(* (or the phases are crossed one by one in the continuous formulation), rows  *)
(* are collected, and the solver picks a point or gives up.                    *)
(*                                                                             *)
(* The motion is one-dimensional: c0, the free point x and c1 are the control  *)
(* points of a curve of degree 2 over T ticks, so T^2 c(t) is an integer, and  *)
(* a phase accepts positions between its limits.  Time is in ticks, and every  *)
(* instant is looked at.  TLC visits all the runs for all the requests of the  *)
(* family below.  What is shown is what the properties say of a call:          *)
(*   Sound (C02-C05)  an answer is accepted by every phase at the instants     *)
(*                    promised: samples, ends of phases, or all of them        *)
(*   Complete (C06)   a failure means that no point meets what was asked for   *)
(*   Best (C07)       no cheaper point does                                    *)
(*   Ends (C01)       the motion starts and ends where it should, in time      *)
(*   Schedule (C15)   what the visited samples are                             *)
(*   Refusal (C16)    an ill-formed request is refused before anything is done *)
(* and that the rows fit the place made for them.                              *)
EXTENDS Integers, Sequences, FiniteSets, IOUtils

Tier == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER ELSE "quick"
Deep == Tier # "quick"

Free == (-6)..8 \* candidates for the free point
Requests ==
  LET durs == IF Deep THEN {<<d>> : d \in 1..5} \cup ((1..4) \X (1..4)) \cup ((1..3) \X (1..3) \X (1..3))
              ELSE {<<d>> : d \in 2..4} \cup ((2..4) \X (1..3))
      limits == IF Deep THEN {<<-1, 2>>, <<0, 3>>, <<1, 4>>, <<2, 2>>} ELSE {<<-1, 2>>, <<0, 3>>, <<2, 2>>}
      per(m) == [1..m -> limits]
  IN  UNION {[Ts : {ts}, phases : per(Len(ts)) \cup (IF Len(ts) = 1 THEN per(2) ELSE {}), mode : {"step", "points", "cont"},
              gap : (IF Deep THEN 1..3 ELSE 1..2), c0 : {0, 2}, c1 : {1, 2}, acc : {0, 3}] : ts \in durs} \* acc = 0: no bound

VARIABLES req,   \* the request
          pc,    \* "check" | "walk" | "cross" | "solve" | "done"
          t, ph, \* instant and phase of the next sample (or phase to be crossed)
          seen,  \* samples visited: sequence of <<instant, phase>>
          rows,  \* rows collected, each with what it demands of x: a * x <= b
          place, \* number of rows there is room for
          ans    \* the answer
vars == <<req, pc, t, ph, seen, rows, place, ans>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
T == Sum(req.Ts)
M == Len(req.Ts)
Start(i) == Sum(SubSeq(req.Ts, 1, i - 1))
End(i) == Start(i + 1)

(* T^2 times the polar form of the curve, as <<constant, coefficient of x>>    *)
Polar(u, v) == << req.c0 * (T - u) * (T - v) + req.c1 * u * v, u * (T - v) + v * (T - u) >>
Accel == << 2 * (req.c0 + req.c1), -4 >> \* T^2 times the second derivative
At(e, x) == e[1] + e[2] * x
Row(e, s, lim) == [a |-> s * e[2], b |-> lim - s * e[1]] \* s * e(x) <= lim
Inside(e, i) == << Row(e, 1, req.phases[i][2] * T * T), Row(e, -1, -req.phases[i][1] * T * T) >>
Gentle == << Row(Accel, 1, req.acc * T * T), Row(Accel, -1, req.acc * T * T) >>
Satisfies(x, rs) == \A r \in 1..Len(rs) : rs[r].a * x <= rs[r].b
Cost(x) == (2 * x - req.c0 - req.c1) * (2 * x - req.c0 - req.c1)

-----------------------------------------------------------------------------
(* the number of samples of a phase that ends the one before: its first        *)
(* instant belongs to it (step) or not (points)                                *)
CeilDiv(a, b) == (a + b - 1) \div b
SamplesOf(i) == IF req.mode = "step" THEN CeilDiv(req.Ts[i], req.gap) + 1
                ELSE req.gap + (IF i = 1 THEN 1 ELSE 0)
Planned ==
  LET perSample == IF req.acc > 0 THEN 4 ELSE 2
      samples == Sum([i \in 1..M |-> SamplesOf(i)])
  IN  IF req.mode = "cont" THEN M * (3 * 2 + (IF req.acc > 0 THEN 2 ELSE 0))
      ELSE samples * perSample + (M - 1) * 2 \* the next phase speaks at the end of each

Init ==
  /\ req \in Requests
  /\ (req.mode = "points" => \A i \in 1..Len(req.Ts) : req.Ts[i] % req.gap = 0) \* whole ticks
  /\ pc = "check" /\ t = 0 /\ ph = 1 /\ seen = <<>> /\ rows = <<>> /\ place = 0 /\ ans = [kind |-> "none"]

Check ==
  /\ pc = "check"
  /\ IF Len(req.Ts) # Len(req.phases)
     THEN pc' = "done" /\ ans' = [kind |-> "refused"] /\ UNCHANGED place
     ELSE pc' = (IF req.mode = "cont" THEN "cross" ELSE "walk") /\ place' = Planned /\ UNCHANGED ans
  /\ UNCHANGED <<req, t, ph, seen, rows>>

Gap == IF req.mode = "step" THEN req.gap ELSE req.Ts[ph] \div req.gap
Sample ==
  LET last == t = End(ph) /\ (ph = M \/ Len(seen) > 0)
      mine == Inside(Polar(t, t), ph) \o (IF req.acc > 0 THEN Gentle ELSE <<>>)
      next == IF last /\ ph < M THEN Inside(Polar(t, t), ph + 1) ELSE <<>>
  IN  /\ pc = "walk"
      /\ rows' = rows \o mine \o next
      /\ seen' = Append(seen, <<t, ph>>)
      /\ IF ~last THEN t' = (IF t + Gap > End(ph) THEN End(ph) ELSE t + Gap) /\ UNCHANGED <<ph, pc>>
         ELSE IF ph = M THEN pc' = "solve" /\ UNCHANGED <<t, ph>>
         ELSE /\ ph' = ph + 1 /\ UNCHANGED pc
              /\ t' = IF req.mode = "step" THEN t ELSE t + req.Ts[ph + 1] \div req.gap
      /\ UNCHANGED <<req, place, ans>>

Cross ==
  /\ pc = "cross"
  /\ LET a == Start(ph)
         b == End(ph)
     IN  rows' = rows \o Inside(Polar(a, a), ph) \o Inside(Polar(a, b), ph) \o Inside(Polar(b, b), ph)
                 \o (IF req.acc > 0 THEN Gentle ELSE <<>>)
  /\ IF ph = M THEN pc' = "solve" /\ UNCHANGED ph ELSE ph' = ph + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<req, t, seen, place, ans>>

(* any of the best points may be taken *)
Solve ==
  /\ pc = "solve" /\ pc' = "done"
  /\ LET ok == {x \in Free : Satisfies(x, rows)}
     IN  IF ok = {} THEN ans' = [kind |-> "failure"]
         ELSE \E x \in ok : (\A y \in ok : Cost(x) <= Cost(y)) /\ ans' = [kind |-> "success", x |-> x, T |-> T]
  /\ UNCHANGED <<req, t, ph, seen, rows, place>>
Next == Check \/ Sample \/ Cross \/ Solve
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* What was asked for, without the order in which the planner goes about it.   *)
WellFormed == Len(req.Ts) = Len(req.phases)
PhasesAt(s) == {i \in 1..M : Start(i) <= s /\ s <= End(i)}
Accepts(i, s, x) == \A r \in 1..2 : LET q == Inside(Polar(s, s), i)[r] IN q.a * x <= q.b
(* instants promised: those of the discretisation; the ends of phases are among them *)
Instants(i) ==
  CASE req.mode = "step" -> {s \in Start(i)..End(i) : s = End(i) \/ (s - Start(i)) % req.gap = 0}
    [] req.mode = "points" -> {s \in Start(i)..End(i) : (s - Start(i)) % (req.Ts[i] \div req.gap) = 0}
    [] OTHER -> Start(i)..End(i)
Asked(x) ==
  /\ \A i \in 1..M : \A s \in Instants(i) : Accepts(i, s, x)
  /\ req.acc > 0 => (At(Accel, x) <= req.acc * T * T /\ -At(Accel, x) <= req.acc * T * T)
(* the continuous formulation is conservative: it asks for the control points  *)
Formulated(x) ==
  IF req.mode # "cont" THEN Asked(x)
  ELSE /\ \A i \in 1..M : \A e \in {Polar(Start(i), Start(i)), Polar(Start(i), End(i)), Polar(End(i), End(i))} :
            req.phases[i][1] * T * T <= At(e, x) /\ At(e, x) <= req.phases[i][2] * T * T
       /\ req.acc > 0 => (At(Accel, x) <= req.acc * T * T /\ -At(Accel, x) <= req.acc * T * T)

Done(k) == pc = "done" /\ ans.kind = k
TypeOK == /\ pc \in {"check", "walk", "cross", "solve", "done"} /\ ph \in 1..M /\ t \in 0..T
          /\ ans.kind \in {"none", "refused", "failure", "success"} /\ (pc = "done" <=> ans.kind # "none")
Fits == Len(rows) <= place /\ (pc \in {"solve", "done"} /\ WellFormed => Len(rows) = place)
Sound == Done("success") => Asked(ans.x)
Complete == Done("failure") => \A x \in Free : ~Formulated(x)
Best == Done("success") => Formulated(ans.x) /\ \A y \in Free : Formulated(y) => Cost(ans.x) <= Cost(y)
Ends == Done("success") => ans.T = T /\ At(Polar(0, 0), ans.x) = req.c0 * T * T /\ At(Polar(T, T), ans.x) = req.c1 * T * T
Refusal == pc = "done" => ((ans.kind = "refused") <=> ~WellFormed) /\ (ans.kind = "refused" => rows = <<>> /\ seen = <<>>)
Schedule ==
  /\ Len(seen) > 0 => seen[1] = <<0, 1>>
  /\ \A k \in 1..(Len(seen) - 1) : seen[k][1] <= seen[k + 1][1] /\ seen[k + 1][2] \in {seen[k][2], seen[k][2] + 1}
  /\ \A k \in 1..Len(seen) : seen[k][2] \in PhasesAt(seen[k][1])
  /\ pc = "solve" /\ req.mode # "cont" =>
       /\ seen[Len(seen)] = <<T, M>>
       /\ \A i \in 1..M : {seen[k][1] : k \in {k \in 1..Len(seen) : seen[k][2] = i}}
                          = IF req.mode = "points" /\ i > 1 THEN Instants(i) \ {Start(i)} ELSE Instants(i)
       /\ Cardinality({seen[k] : k \in 1..Len(seen)}) = Len(seen)
(* every call is answered *)
Answered == <>(pc = "done")
=============================================================================
