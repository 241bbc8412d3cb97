------------------------------- MODULE FlowMC -------------------------------
(* All segments between the points of a small lattice, on small grids:       *)
(* the flow is additive, reversible, and the difference of the potential.    *)
EXTENDS Flow
CONSTANTS Half, NGrids   \* the lattice has spacing 1/2 and covers (-Half .. Half)/2
VARIABLES gi, a, b, m
vars == << gi, a, b, m >>

Pt(x, y) == << R(x), R(y) >>
Mk(n, p) == LET g == [n |-> n, p |-> p]  ps == Polys(g) IN
            [n |-> n, p |-> p, poly |-> ps, box |-> TLCEval([c \in 1..Len(ps) |-> Box(ps[c])])]
\* two by one cells; two by two cells sheared and reversed; a strip
Grids == TLCEval(<< Mk(<<3, 2>>, << Pt(-1,0), Pt(-1,1), Pt(0,0), Pt(0,1), Pt(1,0), Pt(1,1) >>),
                    Mk(<<3, 3>>, << Pt(1,-1), Pt(1,0), Pt(1,1), Pt(0,-1), Pt(0,0), Pt(0,1), Pt(-1,-1), Pt(-1,0), Pt(-1,1) >>),
                    Mk(<<2, 3>>, << Pt(-1,-1), Pt(-1,0), Pt(0,1), Pt(0,-1), Pt(0,0), Pt(1,1) >>) >>)
Lattice == (-Half..Half) \X (-Half..Half)                    \* in halves
P(x) == << RFrac(x[1], 2), RFrac(x[2], 2) >>
OnSeg(x, p, q) == REq(Cross(P(p), P(q), P(x)), 0) /\ RSign(Dot(P(x), P(p), P(q))) <= 0
Init == gi \in 1..NGrids /\ a \in Lattice /\ b = a /\ m = a
Next == /\ b = a /\ gi' = gi /\ a' = a
        /\ \E q \in Lattice \ {a} : /\ a[1] < q[1] \/ (a[1] = q[1] /\ a[2] < q[2])
                                    /\ b' = q /\ \E x \in Lattice : OnSeg(x, a, q) /\ m' = x
G == Grids[gi]
Count == NumEdges(G.n)[1] + NumEdges(G.n)[2]
Field(r) == << [k \in 1..NumEdges(G.n)[1] |-> R(((k * (r + 2)) % 7) - 3)], [k \in 1..NumEdges(G.n)[2] |-> R(((k * k * (r + 3)) % 5) - 2)] >>
Flow1(p, q, f) == FlowOf(G, Weights(G, P(p), P(q)), f[1], f[2])
Eq(x, y) == RClose(x, y, RFrac(1, 1000000000) ** RFrac(1, 1000))      \* cell coordinates are rounded to doubles
Additive == \A r \in 1..2 : Eq(Flow1(a, b, Field(r)), Flow1(a, m, Field(r)) ++ Flow1(m, b, Field(r)))
Reversible == \A r \in 1..2 : Eq(Flow1(a, b, Field(r)), RNeg(Flow1(b, a, Field(r))))
\* parts are counted once: what is inside of the reversed segment is the same, and at most all
Once == LET w == Weights(G, P(a), P(b)) IN REq(Inner(w), Inner(Weights(G, P(b), P(a)))) /\ RLeq(Inner(w), R(1))
\* a potential at the nodes and its bilinear interpolation
Phi(k) == R(((k * k) % 7) - 2)
PotField == << [k \in 1..NumEdges(G.n)[1] |-> Phi(((k-1) \div G.n[2] + 1) * G.n[2] + ((k-1) % G.n[2]) + 1) -- Phi(((k-1) \div G.n[2]) * G.n[2] + ((k-1) % G.n[2]) + 1)],
               [k \in 1..NumEdges(G.n)[2] |-> LET i == (k-1) \div (G.n[2]-1)  j == (k-1) % (G.n[2]-1) IN Phi(i * G.n[2] + j + 2) -- Phi(i * G.n[2] + j + 1)] >>
In(p) == {c \in DOMAIN G.poly : InPoly(p, G.poly[c], R(0))}
PhiAt(p) == LET c == CHOOSE d \in In(p) : \A e \in In(p) : d <= e
                k == CellNodes(G.n, c - 1)
                x == CellCoords(G.poly[c], p)
                u == R(1) -- x[1]  v == R(1) -- x[2] IN
            (u ** v ** Phi(k[1] + 1)) ++ (x[1] ** v ** Phi(k[2] + 1)) ++ (x[1] ** x[2] ** Phi(k[3] + 1)) ++ (u ** x[2] ** Phi(k[4] + 1))
Potential == (In(P(a)) # {} /\ In(P(b)) # {} /\ REq(Inner(Weights(G, P(a), P(b))), 1)) => Eq(Flow1(a, b, PotField), PhiAt(P(b)) -- PhiAt(P(a)))
=============================================================================
