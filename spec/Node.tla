-------------------------------- MODULE Node --------------------------------
(* The nodal regridder: an object holds a source grid and destination nodes, *)
(* and the weights of its last computation.                                  *)
EXTENDS Cell, Grid, Seqs

\* -------------------------------------------------------------- the weights --
\* x is in a cell of g (exactly) / farther than tol from all of them
InGrid(g, x) == LET b == << x[1], x[2], x[1], x[2] >> IN \E c \in TouchingBoxes(b, g.box) : InPoly(x, g.poly[c], R(0))
FarFrom(g, x, tol) ==
  LET t == R(tol) ** R(2)
      b == << x[1] -- t, x[2] -- t, x[1] ++ t, x[2] ++ t >> IN
  \A c \in TouchingBoxes(b, g.box) : ~InPoly(x, g.poly[c], t)
\* W: set of <<node, weight>> (numbers as reported) used for the point x
WeightEps == RFrac(1, 1000000000)
SumW(W, f(_)) == LET RECURSIVE sum(_)
                     sum(U) == IF U = {} THEN R(0) ELSE LET t == CHOOSE u \in U : TRUE IN (R(t[2]) ** f(t[1])) ++ sum(U \ {t})
                 IN sum(W)
\* the weights are bilinear weights of the nodes of one cell and reproduce the position
InterpOK(g, x, W, tol) ==
  LET nodes == {t[1] : t \in W}
      one(s) == R(1)
      px(s) == g.p[s + 1][1]
      py(s) == g.p[s + 1][2]
      w(s) == IF s \in nodes THEN R((CHOOSE t \in W : t[1] = s)[2]) ELSE R(0)
      dx == SumW(W, px) -- x[1]
      dy == SumW(W, py) -- x[2]
      t2 == (R(tol) ** R(tol)) ** (R(1) ++ WeightEps)
      near == TouchingBoxes(<< x[1] -- R(tol), x[2] -- R(tol), x[1] ++ R(tol), x[2] ++ R(tol) >>, g.box) IN
  /\ \A t \in W : RFinite(t[2]) /\ RLeq(RNeg(WeightEps), R(t[2]))
  /\ RClose(SumW(W, one), R(1), WeightEps)
  /\ RLeq((dx ** dx) ++ (dy ** dy), t2)
  /\ \E c \in near : LET k == CellNodes(g.n, c - 1) IN
       /\ nodes \subseteq {k[1], k[2], k[3], k[4]}
       /\ RClose(w(k[1]) ** w(k[3]), w(k[2]) ** w(k[4]), WeightEps)

\* -------------------------------------------------------------- an object --
NewNode == [src |-> 0, dst |-> 0, per |-> << 0, 0 >>, cs |-> 0, cd |-> 0, cper |-> << 0, 0 >>]
NSetSrc(o, g) == [o EXCEPT !.src = g]
NPeriodic(o, per) == [o EXCEPT !.per = per]
NSetDst(o, g) == [o EXCEPT !.dst = g]
NCan(o) == o.src # 0 /\ o.dst # 0
NCompute(o) == [o EXCEPT !.cs = o.src, !.cd = o.dst, !.cper = o.per]
\* ------------------------------------------------------------------ apply --
\* M: triples <<source node, destination node, weight>>, T: destination nodes that have weights
NScale(f) == Fold(LAMBDA a, x : RMax(a, RAbs(R(x))), R(0), f)
NSame(a, b) == a = b \/ (RFinite(a) /\ RFinite(b) /\ REq(a, b))
NApplyOK(M, T, f, init, out) ==
  LET tol == NScale(f) ** RFrac(1, 1000000000) ** RFrac(1, 100) IN
  /\ Len(out) = Len(init)
  /\ \A d \in 0..Len(out)-1 :
       IF d \in T
       THEN LET W == {<< t[1], t[3] >> : t \in {u \in M : u[2] = d}}
                v(s) == R(f[s + 1]) IN
            RFinite(out[d + 1]) /\ RClose(R(out[d + 1]), SumW(W, v), tol)
       ELSE NSame(out[d + 1], init[d + 1])
=============================================================================
