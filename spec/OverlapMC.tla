------------------------------ MODULE OverlapMC -----------------------------
(* All triangles on a small lattice over small grids: the cells in the       *)
(* polygon's index box are an allowed answer, without any cell that it       *)
(* covers the answer is refused, and so are distant cells.                   *)
EXTENDS Overlap
CONSTANT Reach         \* lattice points -1 .. Reach in both directions
VARIABLES gi, t
vars == << gi, t >>
Mk(n, f(_, _)) == [n |-> n, p |-> TLCEval([k \in 1..n[1]*n[2] |-> f((k-1) \div n[2], (k-1) % n[2])])]
Sq(i, j) == << R(i), R(j) >>
Uneven(i, j) == << R(2 - i * i), RFrac(j * (j + 1), 2) >>
Swap(i, j) == << R(j), R(2) -- R(i) >>
Shear(i, j) == << R(i) ++ RFrac(j, 2), R(j) >>
Bent(i, j) == << R(i) ++ RFrac(i * j, 4), R(j) >>
Grids == TLCEval(<< Mk(<<3, 4>>, Sq), Mk(<<3, 3>>, Uneven), Mk(<<3, 3>>, Swap), Mk(<<3, 3>>, Shear) >>)
Kinds == TLCEval([i \in 1..Len(Grids) |-> Kind(Grids[i])])
ASSUME Kinds[1] = "rect" /\ Kinds[2] = "rect" /\ Kinds[3] = "tcer" /\ Kinds[4] = "affine" /\ Kind(Mk(<<3, 3>>, Bent)) = "other"
G == Grids[gi]
K == Kinds[gi]
\* t: three lattice points in a row of integers
P == << << R(t[1]), R(t[2]) >>, << R(t[3]), R(t[4]) >>, << R(t[5]), R(t[6]) >> >>
L == -1..Reach
Init == gi \in 1..Len(Grids) /\ t = <<>>
Next == t = <<>> /\ gi' = gi /\ t' \in {<< a, b, c, d, e, f >> : a \in {0}, b \in L, c \in L, d \in L, e \in L, f \in L}
RFloorI(x) == RFloor(x)
\* floor of the low corner to ceiling of the high one
Answer(g, k, p) ==
  LET u == TLCEval([i \in 1..Len(p) |-> IndexPos(g, k, p[i])])
      b == Box(u)
      lo(d) == LET f == RFloorI(b[d]) IN IF f < 0 THEN 0 ELSE f
      hi(d) == LET f == RFloorI(b[2 + d] ++ R(1)) IN IF f > g.n[d] - 1 THEN g.n[d] - 1 ELSE f IN
  {NodeId(<<g.n[1]-1, g.n[2]-1>>, i, j) : i \in lo(1)..(hi(1) - 1), j \in lo(2)..(hi(2) - 1)}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN << x >> \o ToSeq(S \ {x})
A == Answer(G, K, P)
Judged == t # <<>> /\ InScope(G, K, P)
Allowed == Judged => LET s == ToSeq(A) IN Valid(G, s) /\ NoneMissed(G, P, s) /\ Close(G, K, P, s)
Needed == {c \in 0..NumCells(G.n)-1 : RLt(RFrac(1, 100), Under(G, c, P))}
Refused == Judged => LET s == ToSeq(A) IN
             /\ \A c \in Needed : ~NoneMissed(G, P, ToSeq(A \ {c}))
             /\ ~Valid(G, s \o << NumCells(G.n) >>) /\ ~Valid(G, << -1 >> \o s)
             /\ A # {} => ~Valid(G, s \o << CHOOSE c \in A : TRUE >>)
\* the areas under the polygon add up to what lies in the grid
Whole == Judged => LET c == TLCEval([q \in 1..NumCells(G.n) |-> Under(G, q - 1, P)]) IN
          /\ RLeq(RSum(c), Area(P))
          /\ (\A i \in 1..3 : RLeq(Box(G.p)[1], P[i][1]) /\ RLeq(P[i][1], Box(G.p)[3]) /\ RLeq(Box(G.p)[2], P[i][2]) /\ RLeq(P[i][2], Box(G.p)[4])) /\ K # "affine" => REq(RSum(c), Area(P))
=============================================================================
