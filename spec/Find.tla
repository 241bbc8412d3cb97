-------------------------------- MODULE Find --------------------------------
(* The search for the index position of a point in a structured grid of one  *)
(* to four dimensions.  A grid is [n |-> node dimensions, c |-> one           *)
(* sequence of coordinates per component]; the last index varies fastest.     *)
EXTENDS Rat, Sequences, FiniteSets, TLC, Seqs

ND(g) == Len(g.n)
LongestSide(g) == CHOOSE m \in {g.n[i] : i \in 1..Len(g.n)} : \A i \in 1..Len(g.n) : g.n[i] <= m
RECURSIVE Prod(_, _)
Prod(n, i) == IF i > Len(n) THEN 1 ELSE n[i] * Prod(n, i + 1)
\* the cell <<lo_1, .., lo_d>> used at the index position x
LoCorner(n, x) == TLCEval([i \in 1..Len(n) |-> LET f == RFloor(x[i]) IN IF f < 0 THEN 0 ELSE IF f > n[i] - 2 THEN n[i] - 2 ELSE f])
\* multilinear interpolation of the values v at x: one dimension after the other, from the first
RECURSIVE Along(_, _, _, _, _, _)
Along(n, lo, x, v, i, at) ==
  IF i > Len(n) THEN v[at + 1]
  ELSE LET t == x[i] -- R(lo[i])
           s == Prod(n, i + 1)
           a == Along(n, lo, x, v, i + 1, at + s * lo[i])
           b == Along(n, lo, x, v, i + 1, at + s * (lo[i] + 1)) IN ((R(1) -- t) ** a) ++ (t ** b)
PosAt(g, x) == LET lo == LoCorner(g.n, x) IN TLCEval([k \in 1..ND(g) |-> Along(g.n, lo, x, g.c[k], 1, 0)])
\* smallest and largest element
MinOf(s) == Fold(RMin, s[1], s)
MaxOf(s) == Fold(RMax, s[1], s)
\* box of the grid, largest absolute coordinate
BoxOf(c) == TLCEval([k \in 1..Len(c) |-> << MinOf(c[k]), MaxOf(c[k]) >>])
ParseG(e) ==
  LET parse(s) == TLCEval([i \in 1..Len(s) |-> R(s[i])])
      c == IF "w" \in DOMAIN e THEN << parse(e.x), parse(e.y), parse(e.z), parse(e.w) >> ELSE IF "z" \in DOMAIN e THEN << parse(e.x), parse(e.y), parse(e.z) >> ELSE IF "y" \in DOMAIN e THEN << parse(e.x), parse(e.y) >> ELSE << parse(e.x) >>
      b == BoxOf(c) IN
  [n |-> e.n, c |-> c, box |-> b, size |-> MaxOf([k \in 1..2*Len(c) |-> RAbs(b[(k + 1) \div 2][1 + (k % 2)])])]
Nums(s) == TLCEval([i \in 1..Len(s) |-> R(s[i])])
AllNum(s) == \A i \in 1..Len(s) : RFinite(s[i])
Dist2N(a, b) == RSum([i \in 1..Len(a) |-> (a[i] -- b[i]) ** (a[i] -- b[i])])
Ulp == RFrac(1, 1000000000) ** RFrac(1, 10000)                 \* rounding, relative to the coordinates
Eps == RFrac(25, 1048576) ** RFrac(1, 1073741824)              \* 100 * 2^-52

\* ------------------------------------------------------------ a search (C07) --
\* s: [g grid, tgt target, nit, tol, iter iterations, hist errors so far]
\* outside the box by more than the tolerance / not
Beyond(g, tgt, tol, slack) ==
  \E k \in 1..ND(g) : RLt(tgt[k], (g.box[k][1] -- tol) -- slack) \/ RLt((g.box[k][2] ++ tol) ++ slack, tgt[k])
Surely(g, tgt, tol)    == Beyond(g, tgt, RMax(tol, Eps), Ulp ** RMax(R(1), g.size))
Possibly(g, tgt, tol)  == Beyond(g, tgt, RMax(tol, Eps), RNeg(Ulp ** RMax(R(1), g.size)))
\* what is observed: idx, pos, err, hist
StateOK(g, tgt, idx, pos, err, start, moved) ==
  LET x == Nums(idx)  tolp == Ulp ** RMax(R(1), g.size)
      d2 == Dist2N(Nums(pos), tgt) IN
  /\ AllNum(idx) /\ AllNum(pos) /\ RFinite(err)
  /\ \A i \in 1..ND(g) : RLeq(R(0), x[i]) /\ RLeq(x[i], R(g.n[i] - 1))
  /\ LET p == PosAt(g, x)  q == Nums(pos) IN \A k \in 1..ND(g) : RClose(q[k], p[k], tolp)
  /\ RSign(R(err)) >= 0 /\ RLeq(RMax(R(0), R(err) -- tolp) ** RMax(R(0), R(err) -- tolp), d2) /\ RLeq(d2, (R(err) ++ tolp) ** (R(err) ++ tolp))
\* the error is larger than at both of the two previous iterations (h: history, last: index of the current one)
Grew(h, last, slack) == LET v == R(h[last]) IN last >= 3 /\ RLt((R(h[last - 1]) ++ Eps) ++ slack, v) /\ RLt((R(h[last - 2]) ++ Eps) ++ slack, v)
StatusOK(ret, h, last, nit, tol) ==
  LET sl == Ulp ** RMax(R(1), R(h[last]))
      e  == R(h[last]) IN
  /\ ret \in {0, 1, -1, -2}
  /\ ret = -2 => Grew(h, last, RNeg(sl))
  /\ ret # -2 => ~Grew(h, last, sl)
  /\ ret = -1 => last >= nit
  /\ ret \in {0, 1} => last < nit
  /\ ret = 1 => RLt(e, tol)
  /\ ret = 0 => RLeq(tol, e)

\* -------------------------------------------------------------- an object --
NewFind(nit, tol) == [nit |-> nit, tol |-> tol, g |-> 0, per |-> <<>>, start |-> <<>>, tgt |-> <<>>, iter |-> 0, hist |-> <<>>, over |-> TRUE]
FSetGrid(o, g, per) == [o EXCEPT !.g = g, !.per = per, !.over = TRUE, !.iter = 0, !.hist = <<>>]
FReset(o, x, t) == [o EXCEPT !.start = x, !.tgt = t, !.iter = 0, !.hist = <<>>, !.over = FALSE]
FNext(o, hist, ret) == [o EXCEPT !.iter = IF ret = -3 THEN @ ELSE @ + 1, !.hist = hist, !.over = ret # 0]
=============================================================================
