------------------------------- MODULE Grid -------------------------------
(* Structured grids of quadrilaterals.  A grid is a record                    *)
(*   [n |-> <<n0, n1>>, p |-> sequence of n0*n1 points]                       *)
(* with node (i, j), counted from zero, at position i*n1 + j (+1): row major, *)
(* the last index varies fastest.  Cells are numbered the same way.           *)
EXTENDS Geom

NodeId(n, i, j)  == i * n[2] + j                   \* from 0
NumNodes(n)      == n[1] * n[2]
NumCells(n)      == (n[1] - 1) * (n[2] - 1)
CellI(n, c)      == c \div (n[2] - 1)
CellJ(n, c)      == c % (n[2] - 1)
\* the corners of cell c in cyclic order, starting from the low corner along the first index
CellNodes(n, c)  == LET i == CellI(n, c) j == CellJ(n, c) IN
                    << NodeId(n, i, j), NodeId(n, i+1, j), NodeId(n, i+1, j+1), NodeId(n, i, j+1) >>
CellPoly(g, c)   == LET k == CellNodes(g.n, c) IN << g.p[k[1]+1], g.p[k[2]+1], g.p[k[3]+1], g.p[k[4]+1] >>
Polys(g)         == TLCEval([c \in 1..NumCells(g.n) |-> CellPoly(g, c-1)])
\* a grid as found in a script or a trace: dims and coordinate strings
ParseGrid(e)     == [n |-> e.n, p |-> TLCEval([k \in 1..Len(e.x) |-> << R(e.x[k]), R(e.y[k]) >>])]
\* polygons, boxes and areas of all the cells: computed once per grid of a trace
Prepare(e) == LET g == ParseGrid(e)
                  ps == Polys(g)
              IN [n |-> g.n, p |-> g.p, poly |-> ps,
                  box  |-> TLCEval([c \in 1..Len(ps) |-> Box(ps[c])]),
                  area |-> TLCEval([c \in 1..Len(ps) |-> Area(ps[c])])]
=============================================================================
