------------------------------ MODULE TraceBase -----------------------------
(* Shared by the trace specifications.  A trace is a sequence of events        *)
(* recorded from the implementation, one JSON object per line; TRACE names the *)
(* file and PROP the property being decided.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Crashed(e) == Trace[e].ev = "crash"

Unless(cond, reason) == IF cond THEN {} ELSE {reason}

RECURSIVE SetToSeq_(_)
SetToSeq_(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq_(S \ {x})
(* one line per rejected event; PrintT is TRUE *)
Report(e, bad) ==
  IF bad = {} THEN TRUE
  ELSE PrintT("REJECT " \o ToJson([prop |-> Prop, id |-> Trace[e].id, reasons |-> SetToSeq_(bad)]))
(* one line per counted fact *)
Note(e, what) == PrintT("NOTE " \o ToJson([id |-> Trace[e].id, what |-> what]))
=============================================================================
