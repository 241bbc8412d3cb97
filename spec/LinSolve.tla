----------------------------- MODULE LinSolve ------------------------------
(* The dense solver: a matrix of fixed shape, a right hand side, a solution. *)
EXTENDS Rat, TLC
LOCAL INSTANCE SequencesExt

\* matrices are sequences of rows
Matrix(a, nr, nc) == TLCEval([i \in 1..nr |-> [j \in 1..nc |-> R(a[(i-1)*nc + j])]])
Vector(b)   == TLCEval([i \in 1..Len(b) |-> R(b[i])])
Rows(m)     == Len(m)
Cols(m)     == Len(m[1])
Transp(m)   == TLCEval([j \in 1..Cols(m) |-> [i \in 1..Rows(m) |-> m[i][j]]])
Inner(u, v) == RSum([i \in 1..Len(u) |-> u[i] ** v[i]])
TimesV(m, v) == TLCEval([i \in 1..Rows(m) |-> Inner(m[i], v)])
Times(m, n) == LET t == Transp(n) IN TLCEval([i \in 1..Rows(m) |-> [j \in 1..Rows(t) |-> Inner(m[i], t[j])]])
Norm1(v)    == RSum([i \in 1..Len(v) |-> RAbs(v[i])])
RECURSIVE MaxAbs(_)
MaxAbs(v)   == IF v = <<>> THEN R(0) ELSE RMax(RAbs(Head(v)), MaxAbs(Tail(v)))

\* Gauss-Jordan elimination of the augmented rows; <<>> if the matrix is singular
Pivot(w, k) ==
  LET n == Len(w)  P == {i \in k..n : RSign(w[i][k]) # 0} IN
  IF P = {} THEN <<>>
  ELSE LET p == CHOOSE i \in P : TRUE
           v == TLCEval([i \in 1..n |-> IF i = k THEN w[p] ELSE IF i = p THEN w[k] ELSE w[i]])
           r == TLCEval([j \in 1..n+1 |-> v[k][j] // v[k][k]])
       IN TLCEval([i \in 1..n |-> IF i = k THEN r ELSE [j \in 1..n+1 |-> v[i][j] -- (v[i][k] ** r[j])]])
Eliminate(w) ==
  LET e == FoldLeft(LAMBDA a, k : IF a = <<>> THEN a ELSE Pivot(a, k), w, [k \in 1..Len(w) |-> k]) IN
  TLCEval([i \in 1..Len(e) |-> e[i][Len(w) + 1]])
SolveSquare(m, b) == Eliminate(TLCEval([i \in 1..Len(m) |-> Append(m[i], b[i])]))
\* the solution, the least squares solution, or the solution of minimum norm
Solution(m, b) ==
  LET t == Transp(m) IN
  IF Rows(m) = Cols(m) THEN SolveSquare(m, b)
  ELSE IF Rows(m) > Cols(m) THEN SolveSquare(Times(t, m), TimesV(t, b))
  ELSE LET y == SolveSquare(Times(m, t), b) IN IF y = <<>> THEN y ELSE TimesV(t, y)
Residual(m, x, b) == LET r == TimesV(m, x) IN Norm1([i \in 1..Len(b) |-> r[i] -- b[i]])

\* -------------------------------------------------------------- an object --
\* mat, rhs: what was set last; sm, sr: what was solved last (0: nothing)
NewSystem(nr, nc) == [nr |-> nr, nc |-> nc, mat |-> 0, rhs |-> 0, sm |-> 0, sr |-> 0]
SetMatrix(s, a)   == [s EXCEPT !.mat = a]
SetRhs(s, b)      == [s EXCEPT !.rhs = b]
CanSolve(s)       == s.mat # 0 /\ s.rhs # 0
Solve(s)          == [s EXCEPT !.sm = s.mat, !.sr = s.rhs]
Solved(s)         == s.sm # 0
\* the residual is meaningful when the solution belongs to the matrix and right hand side held
Current(s)        == Solved(s) /\ s.sm = s.mat /\ s.sr = s.rhs

RelTol == RFrac(1, 100000000)
SolutionOK(m, b, x) ==
  LET e == Solution(m, b)
      s == RMax(MaxAbs(e), MaxAbs(b) // MaxAbs([i \in 1..Rows(m) |-> MaxAbs(m[i])])) IN
  /\ Len(x) = Cols(m) /\ \A i \in 1..Len(x) : RFinite(x[i])
  /\ \A i \in 1..Len(x) : RClose(R(x[i]), e[i], s ** RelTol)
ResidualOK(m, b, r) ==
  LET e == Solution(m, b)
      s == Norm1(b) ++ (RSum([i \in 1..Rows(m) |-> MaxAbs(m[i])]) ** MaxAbs(e)) IN
  RFinite(r) /\ RClose(R(r), Residual(m, e, b), s ** RelTol)
=============================================================================
