----------------------------- MODULE TraceBase -----------------------------
(* Checking recorded executions of the code against the specification.      *)
(* TRACE names a file with one event per line: the call, its arguments and  *)
(* what the code returned.  The event is consumed only by an action of the  *)
(* family specification that allows what was observed.                      *)
EXTENDS Rat, Sequences, FiniteSets, TLC, Json, IOUtils, Held
CONSTANT Aspect     \* the properties that are judged in this run
VARIABLE l          \* the next line of the trace

Trace == ndJsonDeserialize(IOEnv.TRACE)
E     == Trace[l]
More  == l <= Len(Trace)
Step  == l' = l + 1
Has(f) == f \in DOMAIN E

\* cond must hold if property id is being judged; says what failed.
\* (IF, because TLC explores both sides of a disjunction in an action.)
Failed(what) == PrintT("FAILED " \o what \o " (line " \o ToString(l) \o ")") /\ FALSE
Judge(id, what, cond) == IF id \notin Aspect THEN TRUE ELSE IF cond THEN TRUE ELSE Failed(id \o ": " \o what)
\* an event that was not answered (crash, hang) is allowed by no action
Answered == IF Has("crash") THEN Failed("the call did not return: " \o E.crash) ELSE TRUE

\* an earlier answer of an object, read again after calls on other objects
HeldJudged(ids) == E.op = "held" /\ \A id \in ids : Judge(id, "the answer of an object changed without a call on it", HeldOK(Trace, l))

\* every line was consumed (one state per line, plus the initial one)
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  \/ d - 1 = Len(Trace) /\ PrintT("ACCEPTED " \o ToString(Len(Trace)))
  \/ d - 1 # Len(Trace) /\ PrintT("REJECTED line " \o ToString(d)) /\ FALSE
=============================================================================
