----------------------------- MODULE StatusTrace ----------------------------
(* Recorded executions, whatever the class: the statuses.                    *)
EXTENDS Status, TraceBase
vars == << l >>
Init == l = 1
\* st: the first nonzero status among the calls an event makes besides the one it is named after
OnCall == E.op # "start" =>
  /\ Judge("C28", "the call failed: " \o ToString(E.op), IF Has("st") THEN E.st = 0 ELSE TRUE)
  /\ Judge("C28", "wrong status of " \o ToString(E.op), IF Has("ret") THEN StatusOK(E.op, E.ret) ELSE TRUE)
Next == More /\ Answered /\ Step /\ OnCall
=============================================================================
