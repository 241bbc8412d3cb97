------------------------------- MODULE Status -------------------------------
(* What the status returned by a call of the C interface may be.             *)
(* 0 means success; the calls that advance an iteration or a search say with *)
(* the status where they are (what it must be there is the business of the   *)
(* specification of the class), the solver passes on LAPACK's complaints.    *)
EXTENDS Integers, FiniteSets
\* status -> may be returned by the calls of this kind
Iteration == {0, 1}
Search    == {0, 1, -1, -2, -3}
Kind == [c \in {"cons.next", "side.next", "find.next", "find.run", "qlf.compute", "ls.solve"} |->
           CASE c \in {"cons.next", "side.next"} -> "iteration"
             [] c \in {"find.next", "find.run"} -> "search"
             [] c = "qlf.compute" -> "projection"
             [] c = "ls.solve" -> "solver"]
\* every other call succeeds: the arguments are valid and the order is that of the protocol
KindOf(c) == IF c \in DOMAIN Kind THEN Kind[c] ELSE "plain"
Allowed(c) == CASE KindOf(c) = "plain" -> {0}
                [] KindOf(c) = "iteration" -> Iteration
                [] KindOf(c) = "search" -> Search
                [] KindOf(c) = "projection" -> {0, 1, 2}
                [] KindOf(c) = "solver" -> {}
StatusOK(c, ret) == KindOf(c) = "solver" \/ ret \in Allowed(c)
\* a run is over as soon as the status is not 0
Over(c, ret) == KindOf(c) \in {"iteration", "search"} /\ ret # 0
=============================================================================
