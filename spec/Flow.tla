-------------------------------- MODULE Flow --------------------------------
(* Integrals of an edge field along the segments of a polyline: an object    *)
(* holds a source grid and a polyline, and the weights of its last           *)
(* computation.                                                              *)
EXTENDS Cell, Grid, Seqs

\* ------------------------------------------------------------ the integral --
\* edges: component 0 joins (i, j) to (i+1, j), component 1 joins (i, j) to (i, j+1); row major
Edge0(n, i, j) == (i * n[2]) + j + 1
Edge1(n, i, j) == (i * (n[2] - 1)) + j + 1
NumEdges(n)    == << (n[1] - 1) * n[2], n[1] * (n[2] - 1) >>
\* the values on the four edges of cell c, in the order of the projections
CellEdges(n, c, f0, f1) == LET i == CellI(n, c)  j == CellJ(n, c) IN
  << R(f0[Edge0(n, i, j)]), R(f0[Edge0(n, i, j + 1)]), R(f1[Edge1(n, i, j)]), R(f1[Edge1(n, i + 1, j)]) >>
PartTol == RFrac(1, 1000000000) ** RFrac(1, 100)
\* the parts <<cell, t0, t1>> of a -> b in the cells, by increasing cell
Parts(g, a, b) ==
  LET lb == Box(<< a, b >>)
      C  == {c \in DOMAIN g.box : BoxesTouch(lb, g.box[c])}
      iv == TLCEval([c \in C |-> SegInPoly(a, b, g.poly[c])])
      in == Ascending({c \in C : iv[c] # <<>> /\ RLt(iv[c][1], iv[c][2])})
  IN TLCEval([i \in 1..Len(in) |-> << in[i] - 1, iv[in[i]][1], iv[in[i]][2] >>])
\* [lo, hi] without what is in the claimed intervals
RECURSIVE Without(_, _, _)
Without(lo, hi, cl) ==
  IF RLeq(hi, lo) THEN <<>>
  ELSE IF cl = <<>> THEN << << lo, hi >> >>
  ELSE LET h == Head(cl) IN
       IF RLeq(hi, h[1]) \/ RLeq(h[2], lo) THEN Without(lo, hi, Tail(cl))
       ELSE Without(lo, RMin(hi, h[1]), Tail(cl)) \o Without(RMax(lo, h[2]), hi, Tail(cl))
\* every part of the segment once, with a cell that contains it
RECURSIVE Pieces(_, _)
Pieces(ps, claimed) ==
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps)
           w == TLCEval(Without(p[2], p[3], claimed)) IN
       TLCEval([i \in 1..Len(w) |-> << p[1], w[i][1], w[i][2] >>]) \o Pieces(Tail(ps), Append(claimed, << p[2], p[3] >>))
PiecesOf(g, a, b) == TLCEval(Pieces(Parts(g, a, b), <<>>))
Weigh(w, v) == (w[1] ** v[1]) ++ (w[2] ** v[2]) ++ (w[3] ** v[3]) ++ (w[4] ** v[4])
\* <<cell, projections>> of each piece: what the flow depends on
Weights(g, a, b) == LET ps == PiecesOf(g, a, b) IN
  TLCEval([i \in 1..Len(ps) |-> << ps[i][1], TLCEval(Projections(CellCoords(g.poly[ps[i][1]+1], Lerp(a, b, ps[i][2])), CellCoords(g.poly[ps[i][1]+1], Lerp(a, b, ps[i][3])))),
                                  ps[i][3] -- ps[i][2] >>])
Inner(ws)  == RSum([i \in 1..Len(ws) |-> ws[i][3]])           \* the fraction of the segment in the grid
FlowOf(g, ws, f0, f1) == RSum([i \in 1..Len(ws) |-> Weigh(ws[i][2], CellEdges(g.n, ws[i][1], f0, f1))])
\* largest value of the field
FlowScale(f0, f1) == LET m(f) == Fold(LAMBDA a, x : RMax(a, RAbs(R(x))), R(0), f) IN RMax(m(f0), m(f1))
FlowTol == RFrac(1, 100000000)
Untouched(x, y) == x = y \/ (RFinite(x) /\ RFinite(y) /\ REq(x, y))
\* w: Weights of the segment; init, out: value before and after
FlowOK(g, w, f0, f1, field, init, out) ==
  LET scale == field ** RSum([i \in 1..Len(w) |-> RMax(R(1), Finesse(g.poly[w[i][1] + 1]) // R(10))]) IN
  IF RLt(PartTol, Inner(w)) THEN RFinite(out) /\ RClose(R(out), FlowOf(g, w, f0, f1), FlowTol ** RMax(scale, field))
  ELSE Untouched(out, init) \/ (RFinite(out) /\ RClose(R(out), R(0), FlowTol ** RMax(scale, field)))

\* -------------------------------------------------------------- an object --
NewFlow == [src |-> 0, dst |-> 0, cs |-> 0, cd |-> 0]
FSetSrc(o, g) == [o EXCEPT !.src = g]
FSetDst(o, g) == [o EXCEPT !.dst = g]
FCan(o) == o.src # 0 /\ o.dst # 0
FCompute(o) == [o EXCEPT !.cs = o.src, !.cd = o.dst]
\* the source grid also tells apply the layout of the field, so it must be the current one
FCanApply(o) == o.cs # 0 /\ o.cs = o.src
=============================================================================
