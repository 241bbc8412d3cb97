------------------------------ MODULE Overlap -------------------------------
(* The cells of a structured grid that may lie under a polygon.              *)
(* The answer is a list of flat cell indices (row major).                    *)
EXTENDS Grid, FiniteSets

\* ---------------------------------------------------------------- the grids --
\* strictly monotone in one index only, along all the rows and columns
Mono(v, s) == \A i \in 1..Len(v)-1 : RSign(v[i + 1] -- v[i]) = s
Monotone(v) == Len(v) > 1 /\ LET s == RSign(v[2] -- v[1]) IN s # 0 /\ Mono(v, s)
At(g, i, j) == g.p[NodeId(g.n, i, j) + 1]
\* component k depends on the index d only
Along(g, k, d) == \A i \in 0..g.n[1]-1 : \A j \in 0..g.n[2]-1 :
                     REq(At(g, i, j)[k], (IF d = 1 THEN At(g, i, 0) ELSE At(g, 0, j))[k])
Axis(g, k, d) == TLCEval([q \in 1..g.n[d] |-> (IF d = 1 THEN At(g, q - 1, 0) ELSE At(g, 0, q - 1))[k]])
\* rectilinear: x along one index, y along the other
RectPerm(g) == IF Along(g, 1, 1) /\ Along(g, 2, 2) THEN 1 ELSE IF Along(g, 1, 2) /\ Along(g, 2, 1) THEN 2 ELSE 0
IsRect(g, perm) == perm # 0 /\ Monotone(Axis(g, 1, perm)) /\ Monotone(Axis(g, 2, 3 - perm))
\* an affine image of the index lattice, to rounding
Basis(g) == LET o == At(g, 0, 0)  a == At(g, g.n[1]-1, 0)  b == At(g, 0, g.n[2]-1) IN
            [o |-> o, u |-> << (a[1] -- o[1]) // R(g.n[1]-1), (a[2] -- o[2]) // R(g.n[1]-1) >>,
                      v |-> << (b[1] -- o[1]) // R(g.n[2]-1), (b[2] -- o[2]) // R(g.n[2]-1) >>]
Affine(b, i, j) == << (b.o[1] ++ (R(i) ** b.u[1])) ++ (R(j) ** b.v[1]), (b.o[2] ++ (R(i) ** b.u[2])) ++ (R(j) ** b.v[2]) >>
Size(g) == LET b == Box(g.p) IN RMax(R(1), RMax(RMax(RAbs(b[1]), RAbs(b[3])), RMax(RAbs(b[2]), RAbs(b[4]))))
Det(b) == (b.u[1] ** b.v[2]) -- (b.u[2] ** b.v[1])
IsAffine(g) == LET b == Basis(g)  t == RFrac(1, 1000000000) ** Size(g) IN
               RSign(Det(b)) # 0 /\ \A i \in 0..g.n[1]-1 : \A j \in 0..g.n[2]-1 :
                  LET p == At(g, i, j)  q == Affine(b, i, j) IN RClose(p[1], q[1], t) /\ RClose(p[2], q[2], t)
Kind(g) == LET r == RectPerm(g) IN IF IsRect(g, r) THEN IF r = 1 THEN "rect" ELSE "tcer" ELSE IF IsAffine(g) THEN "affine" ELSE "other"

\* ----------------------------------------------------------- index positions --
\* place of x among the monotone values v, counted from 0, extended by the end values
\* (x is between v[lo] and v[hi])
RECURSIVE PlaceFrom(_, _, _, _, _)
PlaceFrom(v, x, s, lo, hi) == IF hi = lo + 1 THEN R(lo - 1) ++ ((x -- v[lo]) // (v[hi] -- v[lo]))
                              ELSE LET m == (lo + hi) \div 2 IN IF RSign(x -- v[m]) # s THEN PlaceFrom(v, x, s, lo, m) ELSE PlaceFrom(v, x, s, m, hi)
Place(v, x) == LET s == RSign(v[Len(v)] -- v[1]) IN
               IF RSign(x -- v[1]) # s THEN R(0) ELSE IF RSign(x -- v[Len(v)]) = s THEN R(Len(v) - 1) ELSE PlaceFrom(v, x, s, 1, Len(v))
IndexPos(g, kind, x) ==
  CASE kind = "rect" -> << Place(Axis(g, 1, 1), x[1]), Place(Axis(g, 2, 2), x[2]) >>
    [] kind = "tcer" -> << Place(Axis(g, 2, 1), x[2]), Place(Axis(g, 1, 2), x[1]) >>
    [] kind = "affine" -> LET b == Basis(g)  d == Det(b)  r == << x[1] -- b.o[1], x[2] -- b.o[2] >> IN
                          << ((r[1] ** b.v[2]) -- (r[2] ** b.v[1])) // d, ((b.u[1] ** r[2]) -- (b.u[2] ** r[1])) // d >>
InIndexRange(g, u) == \A d \in 1..2 : RLeq(R(0), u[d]) /\ RLeq(u[d], R(g.n[d] - 1))
\* the part of the specification that applies
InScope(g, kind, poly) == kind \in {"rect", "tcer"} \/ (kind = "affine" /\ \A i \in 1..Len(poly) : InIndexRange(g, IndexPos(g, kind, poly[i])))

\* ------------------------------------------------------------------ answers --
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Valid(g, cells) == Cardinality(SeqSet(cells)) = Len(cells) /\ \A c \in SeqSet(cells) : c \in 0..NumCells(g.n)-1
\* area of the part of the polygon (of any form) in the cell
Under(g, c, poly) == OverlapArea(poly, CellPoly(g, c))
Slack(g, poly) == RFrac(1, 10000) ** (R(1) ++ (RAbs(Box(poly)[3] -- Box(poly)[1]) ++ RAbs(Box(poly)[4] -- Box(poly)[2])))
\* (a cell beside the box of the polygon has none of it)
Beside(b, q) == LET e == Box(q) IN RLt(e[3], b[1]) \/ RLt(b[3], e[1]) \/ RLt(e[4], b[2]) \/ RLt(b[4], e[2])
NoneMissed(g, poly, cells) == LET sl == Slack(g, poly)  b == TLCEval(Box(poly))  has == SeqSet(cells) IN
                              \A c \in (0..NumCells(g.n)-1) \ has : Beside(b, CellPoly(g, c)) \/ RLeq(Under(g, c, poly), sl)
\* at most one cell beside the polygon's box in index space
Close(g, kind, poly, cells) ==
  LET u == TLCEval([i \in 1..Len(poly) |-> IndexPos(g, kind, poly[i])])
      b == Box(u)
      near(i, lo, hi) == RLeq(lo -- R(1), R(i + 1)) /\ RLeq(R(i), hi ++ R(1)) IN
  \A c \in SeqSet(cells) : near(CellI(g.n, c), b[1], b[3]) /\ near(CellJ(g.n, c), b[2], b[4])
=============================================================================
