----------------------------- MODULE TwinTrace ------------------------------
(* Recorded executions: a script, then related ones.  Each call carries its  *)
(* number in the first script (nth) and its whole answer (ans).               *)
EXTENDS Twin, TraceBase
VARIABLES base,       \* line of the first call ("start") of the script
          why         \* how the execution is related to it
vars == << l, base, why >>
Init == l = 1 /\ base = 0 /\ why = ""
OnStart == E.op = "start" /\ why' = E.twin /\ base' = IF E.twin = "base" THEN l ELSE base
First(n) == Trace[base + n - 1]
\* the answer e of a call as far as it was asked for in the call c
Answer(e, c) == IF "quiet" \in DOMAIN c /\ c.quiet THEN e.brief ELSE e.ans
OnCall ==
  /\ E.op # "start" /\ UNCHANGED << base, why >>
  /\ why # "base" =>
     /\ Assert(First(E.nth).op = E.op, "the executions are out of step")
     /\ Judge("C29", "another answer to the same calls: " \o E.op, why = "again" => E.ans = First(E.nth).ans)
     /\ Judge("C30", "another answer without the other objects: " \o E.op, why = "alone" => E.ans = First(E.nth).ans)
     /\ Judge("C31", "looking changed something: " \o E.op, why = "looks" => Answer(E, E) = Answer(First(E.nth), E))
Next == More /\ Answered /\ Step /\ (OnStart \/ OnCall)
=============================================================================
