------------------------------- MODULE NodeMC -------------------------------
(* All points of a small lattice in cells of small grids: exact bilinear     *)
(* weights are accepted, wrong ones are refused, linear fields reproduced.   *)
EXTENDS Node
CONSTANT Parts           \* cell coordinates are multiples of 1/Parts
VARIABLES gi, c, u
vars == << gi, c, u >>
Pt(x, y) == << R(x), R(y) >>
Mk(n, p) == LET g == [n |-> n, p |-> p]  ps == Polys(g) IN
            [n |-> n, p |-> p, poly |-> ps, box |-> TLCEval([i \in 1..Len(ps) |-> Box(ps[i])])]
Grids == TLCEval(<< Mk(<<3, 2>>, << Pt(-1,0), Pt(-1,1), Pt(0,0), Pt(0,1), Pt(1,0), Pt(1,1) >>),
                    Mk(<<2, 3>>, << Pt(8,-1), Pt(-1,1), Pt(-8,0), Pt(9,9), Pt(1,8), Pt(-7,7) >>),
                    Mk(<<3, 3>>, << Pt(9,-8), Pt(7,1), Pt(8,8), Pt(1,-7), Pt(0,0), Pt(-1,9), Pt(-8,-8), Pt(-7,1), Pt(-8,7) >>) >>)
G == Grids[gi]
Init == gi \in 1..Len(Grids) /\ c \in 0..NumCells(Grids[gi].n)-1 /\ u = << 0, 0 >>
Next == u = << 0, 0 >> /\ gi' = gi /\ c' = c /\ u' \in (0..Parts) \X (0..Parts)
U == << RFrac(u[1], Parts), RFrac(u[2], Parts) >>
X == Bilinear(G.poly[c + 1], U)
K == CellNodes(G.n, c)
Ws == << (R(1) -- U[1]) ** (R(1) -- U[2]), U[1] ** (R(1) -- U[2]), U[1] ** U[2], (R(1) -- U[1]) ** U[2] >>
W == {<< K[i], RStr(Ws[i]) >> : i \in {j \in 1..4 : RSign(Ws[j]) # 0}}
PosTol == "1/100000000"
ASSUME \A i \in 1..Len(Grids) : \A q \in DOMAIN Grids[i].poly : Convex(Grids[i].poly[q])
Accepted == InterpOK(G, X, W, PosTol) /\ InGrid(G, X) /\ ~FarFrom(G, X, PosTol)
\* exchanging two different weights, dropping one, or using the neighbouring node is refused
Refused == /\ \A t \in W : ~InterpOK(G, X, W \ {t}, PosTol)
           /\ \A i \in 1..4 : \A j \in 1..i-1 : ~REq(Ws[i], Ws[j]) =>
                ~InterpOK(G, X, {<< K[q], RStr(Ws[IF q = i THEN j ELSE IF q = j THEN i ELSE q]) >> : q \in 1..4}, PosTol)
\* the weights are the only ones: moving weight along the affine dependency breaks bilinearity
Unique == \A e \in {RFrac(1, 100), RFrac(-1, 100)} :
            ~InterpOK(G, X, {<< K[q], RStr(Ws[q] ++ (IF q % 2 = 1 THEN e ELSE RNeg(e))) >> : q \in 1..4}, PosTol)
Outside == \A d \in {<< -1, 0 >>, << 1, 1 >>, << 0, 1 >>} : FarFrom(G, << X[1] ++ R(40 * d[1]), X[2] ++ R(40 * d[2]) >>, PosTol)
Linear == \A a \in {-2, 1, 3} : LET f(s) == (R(a) ** G.p[s+1][1]) ++ (R(2) ** G.p[s+1][2]) IN REq(SumW(W, f), (R(a) ** X[1]) ++ (R(2) ** X[2]))
=============================================================================
