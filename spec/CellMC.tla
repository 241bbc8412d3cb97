------------------------------- MODULE CellMC -------------------------------
(* All quadrilaterals, point sets and segments of a small lattice: exact     *)
(* answers are allowed, whatever is wrong with an answer is refused, and the *)
(* oracle agrees with other ways to find the same thing (Pick's theorem).    *)
EXTENDS Cell
CONSTANTS N,            \* the lattice is 0..N in both directions
          Tool,         \* "quads", "hull", "line", "flows"
          First, Step,  \* every First-th quadrilateral with every Step-th partner is looked at
          MaxPts        \* points of a set
VARIABLES a, b          \* the inputs (b: <<>> while not chosen)
vars == << a, b >>
Lat == (0..N) \X (0..N)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Turn(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
\* convex quadrilaterals of both orientations from their lowest corner, also those with a corner on an edge
Quads == {q \in Lat \X Lat \X Lat \X Lat :
            /\ \A i \in 2..4 : Less(q[1], q[i])
            /\ LET s == {Turn(q[1], q[2], q[3]), Turn(q[2], q[3], q[4]), Turn(q[3], q[4], q[1]), Turn(q[4], q[1], q[2])} IN
               ((\A t \in s : t >= 0) \/ (\A t \in s : t <= 0)) /\ Cardinality({x \in s : x # 0}) >= 1
            /\ Cardinality({q[1], q[2], q[3], q[4]}) = 4 /\ Turn(q[1], q[2], q[3]) + Turn(q[1], q[3], q[4]) # 0}
Code(q) == (q[1][1] * 64) + (q[2][1] * 16) + (q[3][1] * 4) + q[4][1] + (q[1][2] * 37) + (q[2][2] * 11) + (q[3][2] * 5) + q[4][2]
Pick(S, k, s) == {q \in S : (Code(q) + k) % s = 0}
QuadSet == TLCEval(Quads)
Segments == TLCEval({s \in Lat \X Lat : s[1] # s[2]})
Sets == {S \in SUBSET Lat : Cardinality(S) <= MaxPts}
P(x) == << R(x[1]), R(x[2]) >>
Poly(q) == [i \in 1..Len(q) |-> P(q[i])]
Init == /\ IF Tool = "hull" THEN a \in Sets ELSE a \in Pick(QuadSet, 0, First)
        /\ b = <<>>
Next == /\ b = <<>> /\ Tool # "hull" /\ a' = a
        /\ IF Tool = "quads" THEN b' \in Pick(QuadSet, Code(a), Step) ELSE b' \in {s \in Segments : (Code(a) + Code(s \o s)) % Step = 0}
\* how the code would report points
Flat(ps) == [i \in 1..(2 * Len(ps)) |-> RHex(RRound(ps[((i - 1) \div 2) + 1][((i - 1) % 2) + 1]))]
Without(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]

\* ---- quads
QA == Poly(a)
QB == Poly(b)
Common == ClipPoly(QA, QB)
Pos == Len(Common) >= 3 /\ RSign(Area(Common)) # 0
Is(k) == Tool = k /\ b # <<>>
QuadsAllowed == Is("quads") => LET c == Common IN QuadsOK(QA, QB, Len(c), Flat(c)) /\ QuadsOK(QB, QA, Len(c), Flat(c))
                                                  /\ QuadsOK(Reverse(QA), QB, Len(c), Flat(c))
Symmetric == Is("quads") => REq(OverlapArea(QA, QB), OverlapArea(QB, QA))
\* an answer without a corner of the region, or with a point elsewhere, is refused
QuadsRefused == Is("quads") =>
  LET c == Common IN
  /\ Pos => \A i \in 1..Len(c) : LET d == Without(c, i) IN
       ~REq(IF Len(d) < 3 THEN R(0) ELSE HullArea(d), Area(c)) => ~QuadsOK(QA, QB, Len(d), Flat(d))
  /\ \A i \in 1..4 : ~InPoly(QA[i], QB, R(0)) => ~QuadsOK(QA, QB, Len(c) + 1, Flat(Append(c, QA[i])))
  /\ Pos => ~QuadsOK(QA, QB, 0, <<>>)
  /\ Apart(QA, QB) => c = <<>>
\* ---- hull
In3(x, p, q, r) == LET s == {Turn(p, q, x), Turn(q, r, x), Turn(r, p, x)} IN
                   ((\A t \in s : t >= 0) \/ (\A t \in s : t <= 0)) /\ (Turn(p, q, r) # 0)
Hull(S)  == {x \in Lat : \E p, q, r \in S : In3(x, p, q, r)}
Boundary(S) == {x \in Hull(S) : \E p, q \in S : p # q /\ Turn(p, q, x) = 0 /\ \A r \in S : Turn(p, q, r) >= 0}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y = z \/ Less(y, z) IN << x >> \o SeqOf(S \ {x})
Pick2(S) == IF Hull(S) = {} THEN 0 ELSE 2 * Cardinality(Hull(S) \ Boundary(S)) + Cardinality(Boundary(S)) - 2
PicksTheorem == Tool = "hull" =>
  LET p == Poly(SeqOf(a))  h == RFrac(Pick2(a), 2) IN
  /\ Len(p) > 0 => REq(HullArea(p), h) /\ REq(HullArea(Reverse(p) \o p), h)
  /\ HullOK(p, RHex(h)) /\ (Len(p) > 0 => ~HullOK(p, RHex(h ++ RFrac(1, 16))))
  /\ (Pick2(a) > 0) => ~HullOK(p, RHex(R(0)))
\* ---- line
LA == P(b[1])
LB == P(b[2])
Part == SegInPoly(LA, LB, QA)
Ends == IF Part = <<>> THEN <<>> ELSE << Lerp(LA, LB, Part[1]), Lerp(LA, LB, Part[2]) >>
LineAllowed == Is("line") => LET e == Ends IN
  /\ LineOK(QA, LA, LB, Len(e), Flat(e)) /\ LineOK(Reverse(QA), LA, LB, Len(e), Flat(e)) /\ LineOK(QA, LB, LA, Len(e), Flat(Reverse(e)))
  /\ e # <<>> => LineOK(QA, LA, LB, 3, Flat(<< e[1], Lerp(e[1], e[2], RFrac(1, 2)), e[2] >>))
LineRefused == Is("line") =>
  LET e == Ends IN
  /\ e # <<>> /\ ~SamePoint(e[1], e[2]) => LET mid == Lerp(e[1], e[2], RFrac(1, 2)) IN
       /\ ~LineOK(QA, LA, LB, 2, Flat(Reverse(e)))
       /\ ~LineOK(QA, LA, LB, 3, Flat(<< e[1], e[2], mid >>))
       \* a part that runs inside must be reported; one that runs along an edge may be missed by rounding
       /\ Inside(LA, LB, QA, RNeg(Tol ** R(100))) # <<>> =>
            ~LineOK(QA, LA, LB, 0, <<>>) /\ ~LineOK(QA, LA, LB, 2, Flat(<< e[1], mid >>)) /\ ~LineOK(QA, LA, LB, 2, Flat(<< mid, e[2] >>))
  /\ (e # <<>> /\ ~InPoly(LA, QA, R(0))) => ~LineOK(QA, LA, LB, 3, Flat(<< LA >> \o e))
  /\ e = <<>> => ~LineOK(QA, LA, LB, 1, Flat(<< LA >>))
\* ---- projections: in cell coordinates in sixteenths the lattice is the cell
Xi(x) == << RFrac(x[1], N), RFrac(x[2], N) >>
StrictQuad == LET c == Ccw(QA) IN StrictlyConvex(c)
Near(x, y) == RClose(x, y, RFrac(1, 1000000) ** RFrac(1, 1000000))
PX == Xi(b[1])
PY == Xi(b[2])
PM == << (PX[1] ++ PY[1]) // R(2), (PX[2] ++ PY[2]) // R(2) >>
SumRules == Is("flows") => LET p == Projections(PX, PY)  m == Projections(PY, PX)
                               h == Projections(PX, PM)  k == Projections(PM, PY) IN
  /\ REq(p[1] ++ p[2], PY[1] -- PX[1]) /\ REq(p[3] ++ p[4], PY[2] -- PX[2])
  /\ \A i \in 1..4 : REq(p[i], RNeg(m[i])) /\ REq(p[i], h[i] ++ k[i])
  \* along an edge only its own function counts
  /\ (b[1][2] = 0 /\ b[2][2] = 0) => REq(p[2], 0) /\ REq(p[3], 0) /\ REq(p[4], 0)
\* the cells that mild distortion allows: Newton's method from the centre inverts the map
Mild == StrictQuad /\ LET c == Ccw(QA)
                          s == {Turn(a[1], a[2], a[3]), Turn(a[2], a[3], a[4]), Turn(a[3], a[4], a[1]), Turn(a[4], a[1], a[2])}
                          abs == {IF x < 0 THEN -x ELSE x : x \in s}
                      IN \A x, y \in abs : x <= 2 * y
FlowsAllowed == Is("flows") /\ Mild =>
  LET c == Ccw(QA)
      x == Bilinear(c, PX)  y == Bilinear(c, PY)
      u == CellCoords(c, x)
      p == Projections(PX, PY)
      f == [i \in 1..4 |-> RHex(RRound(p[i]))]
  IN /\ Near(u[1], PX[1]) /\ Near(u[2], PX[2])
     /\ FlowsOK(c, x, y, 0, f) /\ ~FlowsOK(c, x, y, 1, f)
     /\ ~REq(p[1], p[2]) => ~FlowsOK(c, x, y, 0, << f[2], f[1], f[3], f[4] >>)
     /\ ~FlowsOK(c, x, y, 0, [f EXCEPT ![3] = RHex(RRound(p[3] ++ RFrac(1, 1024)))])
     /\ (b[1] # b[2]) => ~FlowsOK(c, y, x, 0, f)
=============================================================================
