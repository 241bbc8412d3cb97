---------------------------- MODULE LinSolveMC -----------------------------
(* All systems with small integer entries: the definition of the solution is *)
(* the one announced.  All histories of one object that keeps a factored     *)
(* matrix in place, as the code does: the answers are those of new objects.  *)
EXTENDS LinSolve
CONSTANTS Max, MaxRows, MaxCols
VARIABLES sys, work     \* work: what the in-place storage holds: <<matrix, factored?, right hand side, overwritten?>>
vars == << sys, work >>

Shapes == {s \in (1..MaxRows) \X (1..MaxCols) : s[1] * s[2] <= 4}
Entry  == (-Max)..Max
Mats(nr, nc) == {TLCEval([i \in 1..nr |-> [j \in 1..nc |-> R(a[(i-1)*nc + j])]]) : a \in [1..(nr*nc) -> Entry]}
Vecs(n) == {TLCEval([i \in 1..n |-> R(a[i])]) : a \in [1..n -> Entry]}
Sq(v) == Inner(v, v)
Diff(u, v) == [i \in 1..Len(u) |-> u[i] -- v[i]]
\* among the candidates, none has a smaller residual, and none with the same residual is shorter
ASSUME \A s \in Shapes : \A m \in Mats(s[1], s[2]) : \A b \in Vecs(s[1]) :
  LET x == Solution(m, b) IN
  x # <<>> =>
    /\ Len(x) = s[2]
    /\ s[1] <= s[2] => RSign(Residual(m, x, b)) = 0
    /\ \A y \in Vecs(s[2]) :
         LET rx == Sq(Diff(TimesV(m, x), b))
             ry == Sq(Diff(TimesV(m, y), b)) IN
         /\ RLeq(rx, ry)
         /\ REq(rx, ry) => RLeq(Sq(x), Sq(y))
    /\ SolutionOK(m, b, x)
    /\ \A j \in 1..s[2] : ~SolutionOK(m, b, [x EXCEPT ![j] = @ ++ RFrac(1, 100)])

Init == sys = NewSystem(2, 2) /\ work = << 0, FALSE, 0, FALSE >>
SetM(a) == sys' = SetMatrix(sys, a) /\ work' = << a, FALSE, work[3], work[4] >>
SetB(b) == sys' = SetRhs(sys, b) /\ work' = << work[1], work[2], b, FALSE >>
\* solve copies what was set to its work space, and leaves it overwritten
DoSolve == CanSolve(sys) /\ sys' = Solve(sys) /\ work' = << sys.mat, TRUE, sys.rhs, TRUE >>
Next == (\E a \in 1..3 : SetM(a) \/ SetB(a)) \/ DoSolve
\* the solution held after a solve is that of the matrix and right hand side held then
Fresh == Solved(sys) /\ work[2] /\ work[4] => work[1] = sys.sm /\ work[3] = sys.sr
StillCurrent == [][ Current(sys) /\ ~Current(sys') => sys'.mat # sys.mat \/ sys'.rhs # sys.rhs ]_vars
=============================================================================
