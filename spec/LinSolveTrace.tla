--------------------------- MODULE LinSolveTrace ---------------------------
(* Recorded executions of the linear solver.                                 *)
EXTENDS LinSolve, TraceBase
VARIABLE sys           \* object -> abstract system; matrices and right hand sides are trace lines
vars == << l, sys >>
Init == l = 1 /\ sys = <<>>
S == sys[E.o]
Put(s) == sys' = (E.o :> s) @@ sys
M(s) == Matrix(Trace[s.sm].a, s.nr, s.nc)
B(s) == Vector(Trace[s.sr].b)
OnNew == E.op = "ls.new" /\ Put(NewSystem(E.nr, E.nc))
OnDel == E.op = "ls.del" /\ sys' = [o \in DOMAIN sys \ {E.o} |-> sys[o]]
OnMat == E.op = "ls.mat" /\ Put(SetMatrix(S, l)) /\ Judge("C17", "the matrix was modified", ~E.mod)
OnRhs == E.op = "ls.rhs" /\ Put(SetRhs(S, l)) /\ Judge("C17", "the right hand side was modified", ~E.mod)
OnSolve == E.op = "ls.solve" /\ CanSolve(S) /\ Put(Solve(S)) /\ Judge("C17", "solve reports an error", E.ret = 0)
\* (setting a new right hand side may replace the solution held)
OnSol == E.op = "ls.sol" /\ UNCHANGED sys
         /\ Judge("C17", "not the solution", Current(S) => SolutionOK(M(S), B(S), E.x))
OnRes == E.op = "ls.res" /\ UNCHANGED sys
         /\ Judge("C17", "not the residual", Current(S) => ResidualOK(M(S), B(S), E.res))
OnStart == E.op = "start" /\ sys' = <<>>
Next == More /\ Answered /\ Step /\ (OnStart \/ (HeldJudged({"C17"}) /\ UNCHANGED sys) \/ OnNew \/ OnDel \/ OnMat \/ OnRhs \/ OnSolve \/ OnSol \/ OnRes)
=============================================================================
