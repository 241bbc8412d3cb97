------------------------------- MODULE Cell --------------------------------
(* The single cell tools: quad/quad and quad/line intersection, convex hull  *)
(* area, projections on the edge basis functions.  An object holds the       *)
(* inputs set last; an answer is judged against those inputs only.           *)
EXTENDS Geom, FiniteSets

\* a flat sequence of coordinates as a sequence of points
Points(c)  == TLCEval([i \in 1..(Len(c) \div 2) |-> << R(c[2*i-1]), R(c[2*i]) >>])
Extent(p)  == LET b == Box(p) IN RMax(b[3] -- b[1], b[4] -- b[2])
AllFinite(c) == \A i \in 1..Len(c) : RFinite(c[i])
Tol        == RFrac(1, 1000000000)

\* an edge of p separates it from q by more than the margin (relative to the size s of the pair)
EdgeSeparates(p, q, m) == LET c == Ccw(p) IN
  \E i \in 1..Len(c) : \A k \in 1..Len(q) : Cross(c[i], c[NextIdx(i, Len(c))], q[k]) \prec RNeg(m)
\* how exact the common points of two quadrilaterals are: as the smaller one, but for the rounding of the larger one
Fine(p, q) == LET s == Extent(p)  t == Extent(q) IN Tol ** (RMin(s, t) ++ (RMax(s, t) // R(100)))
Apart(p, q) == EdgeSeparates(p, q, Fine(p, q) ** Extent(p)) \/ EdgeSeparates(q, p, Fine(p, q) ** Extent(q))

\* --------------------------------------------------------- quads (C11) ----
QuadsOK(a, b, num, c) ==
  /\ Len(c) = 2 * num /\ AllFinite(c)
  /\ LET p == Points(c)
         dt == Fine(a, b) IN
     /\ Apart(a, b) => num = 0
     /\ \A i \in 1..num : InPoly(p[i], a, dt) /\ InPoly(p[i], b, dt)
     /\ RClose(IF num < 3 THEN R(0) ELSE HullArea(p), OverlapArea(a, b), dt ** RMin(Extent(a), Extent(b)))

\* ---------------------------------------------------------- hull (C12) ----
HullOK(p, area) ==
  RFinite(area) /\
  IF Len(p) = 0 THEN REq(area, 0)
  ELSE LET s == Extent(p) IN RClose(R(area), HullArea(p), RFrac(1, 1000000000) ** RFrac(1, 100) ** (s ** s))

\* -------------------------------------------------- line and quad (C13) ----
\* the parameters <<t0, t1>> of the part of a -> b whose cross product with every edge is >= -off (<<>> if none)
RECURSIVE ClipOff(_, _, _, _, _, _)
ClipOff(a, b, c, i, iv, off) ==
  IF i > Len(c) THEN iv
  ELSE LET sa == Cross(c[i], c[NextIdx(i, Len(c))], a) ++ off
           sb == Cross(c[i], c[NextIdx(i, Len(c))], b) ++ off
       IN IF RSign(sa) < 0 /\ RSign(sb) < 0 THEN <<>>
          ELSE IF RSign(sa) >= 0 /\ RSign(sb) >= 0 THEN ClipOff(a, b, c, i + 1, iv, off)
          ELSE LET t  == sa // (sa -- sb)
                   jv == IF RSign(sa) < 0 THEN << RMax(iv[1], t), iv[2] >> ELSE << iv[1], RMin(iv[2], t) >>
               IN IF RLt(jv[2], jv[1]) THEN <<>> ELSE ClipOff(a, b, c, i + 1, jv, off)
Inside(a, b, q, off) == ClipOff(a, b, Ccw(q), 1, << R(0), R(1) >>, off)
Param(a, b, x) == Dot(a, b, x) // Dist2(a, b)
LineOK(q, a, b, num, c) ==
  /\ Len(c) = 2 * num /\ AllFinite(c)
  /\ LET p     == Points(c)
         sq    == Extent(q)
         sl    == Extent(<<a, b>>)
         \* what is found on an edge is as exact as the edge, on a line much longer than that less by rounding
         dt    == Tol ** (sq ++ (sl // R(1000)))
         tt    == Tol ** RMin(R(1), (sq // sl) ++ RFrac(1, 1000))     \* as a part of the segment
         off   == dt ** sq
         outer == Inside(a, b, q, off)             \* of a slightly larger quadrilateral
         inner == Inside(a, b, q, RNeg(off))       \* of a slightly smaller one
         t     == TLCEval([i \in 1..num |-> Param(a, b, p[i])])
     IN /\ outer = <<>> => num = 0
        /\ \A i \in 1..num : /\ NearSegment(p[i], a, b, dt)
                             /\ InPoly(p[i], q, dt)
        /\ \A i \in 1..num-1 : t[i] \preceq (t[i+1] ++ tt)
        /\ inner # <<>> => /\ num >= 1
                           /\ t[1] \preceq (inner[1] ++ tt) /\ (inner[2] -- tt) \preceq t[num]
        /\ num >= 1 => /\ (outer[1] -- tt) \preceq t[1] /\ t[num] \preceq (outer[2] ++ tt)

\* ------------------------------------------------------- projections (C14) --
\* position of cell coordinates x in the bilinear cell q (q[1] low corner, counterclockwise)
Bilinear(q, x) == LET u == R(1) -- x[1]  v == R(1) -- x[2]
                      w == << u ** v, x[1] ** v, x[1] ** x[2], u ** x[2] >> IN
  << (w[1] ** q[1][1]) ++ (w[2] ** q[2][1]) ++ (w[3] ** q[3][1]) ++ (w[4] ** q[4][1]),
     (w[1] ** q[1][2]) ++ (w[2] ** q[2][2]) ++ (w[3] ** q[3][2]) ++ (w[4] ** q[4][2]) >>
\* cell coordinates of a point: Newton's method, each iterate rounded to a double
RECURSIVE Newton(_, _, _, _)
Newton(q, p, x, k) ==
  IF k = 0 THEN x
  ELSE LET f  == Bilinear(q, x)
           u == R(1) -- x[1]
           v == R(1) -- x[2]
           ax == (v ** (q[2][1] -- q[1][1])) ++ (x[2] ** (q[3][1] -- q[4][1]))
           ay == (v ** (q[2][2] -- q[1][2])) ++ (x[2] ** (q[3][2] -- q[4][2]))
           bx == (u ** (q[4][1] -- q[1][1])) ++ (x[1] ** (q[3][1] -- q[2][1]))
           by == (u ** (q[4][2] -- q[1][2])) ++ (x[1] ** (q[3][2] -- q[2][2]))
           d  == (ax ** by) -- (ay ** bx)
           rx == p[1] -- f[1]
           ry == p[2] -- f[2]
       IN Newton(q, p, TLCEval(<< RRound(x[1] ++ (((rx ** by) -- (ry ** bx)) // d)), RRound(x[2] ++ (((ax ** ry) -- (ay ** rx)) // d)) >>), k - 1)
CellCoords(q, p) == Newton(q, p, << RFrac(1, 2), RFrac(1, 2) >>, 8)
\* integrals of the edge basis functions along the straight line from x to y in cell coordinates
Projections(x, y) == LET mx == (x[1] ++ y[1]) // R(2)
                         my == (x[2] ++ y[2]) // R(2)
                         dx == y[1] -- x[1]
                         dy == y[2] -- x[2] IN
  << dx ** (R(1) -- my), dx ** my, dy ** (R(1) -- mx), dy ** mx >>
\* which of the four values belongs to which edge (cpp/SgNdims.h): low and high edge of each direction
EdgeOrder == << 1, 2, 3, 4 >>
\* cell coordinates are found to 1e-10 in position: this many times as much in a cell of small or uneven extent
Finesse(q) == RMax(R(1), Extent(q) // Area(q))
ProjTol(q) == RFrac(1, 100000000) ++ (RFrac(1, 1000000000) ** Finesse(q))
\* a point well outside the box of the cell
Off(q, p) == LET b == Box(q)  m == Extent(q) // R(1000) IN
  p[1] \prec (b[1] -- m) \/ p[2] \prec (b[2] -- m) \/ (b[3] ++ m) \prec p[1] \/ (b[4] ++ m) \prec p[2]
\* the status says which end of the segment has no position in the cell
StatusOff(q, a, b) == IF Off(q, b) THEN 2 ELSE IF Off(q, a) THEN 1 ELSE 0
FlowsOK(q, a, b, ret, proj) ==
  IF StatusOff(q, a, b) # 0 THEN ret = StatusOff(q, a, b) ELSE
  /\ ret = 0 /\ AllFinite(proj)
  /\ LET e == Projections(CellCoords(q, a), CellCoords(q, b)) IN
     \A i \in 1..4 : RClose(R(proj[i]), e[EdgeOrder[i]], ProjTol(q))
=============================================================================
