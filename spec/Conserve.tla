----------------------------- MODULE Conserve ------------------------------
(* The conservative regridder: one object holds a source and a destination   *)
(* grid, the weights of its last computation, and an iterator over them.     *)
EXTENDS Grid, FiniteSets

\* ------------------------------------------------------------ the weights --
\* <<s, d>> for the cells that may overlap, cells counted from zero
Candidates(gs, gd) == UNION { {<<s-1, d>> : s \in TouchingBoxes(gd.box[d+1], gs.box)} : d \in 0..Len(gd.poly)-1 }
\* the fraction of destination cell d in source cell s
Fraction(gs, gd, s, d) == OverlapArea(gs.poly[s+1], gd.poly[d+1]) // gd.area[d+1]
AllConvex(g) == \A c \in 1..Len(g.poly) : Convex(g.poly[c])

WeightTol  == RFrac(1, 1000000000)
\* the reported weights: a function from pairs to numbers (weight 0 for a pair not in its domain)
WeightsExact(gs, gd, ws) ==
  /\ \A p \in DOMAIN ws : p[1] \in 0..Len(gs.poly)-1 /\ p[2] \in 0..Len(gd.poly)-1
  /\ LET C == Candidates(gs, gd) IN
     /\ \A p \in DOMAIN ws \ C : REq(ws[p], 0)
     /\ \A p \in C : RClose(IF p \in DOMAIN ws THEN R(ws[p]) ELSE R(0), Fraction(gs, gd, p[1], p[2]), WeightTol)

\* how the grids cover each other: cells of the destination entirely inside the source grid,
\* and whether all the source cells are entirely inside the destination grid
CoverageOf(gs, gd) ==
  LET C == Candidates(gs, gd)
      a == TLCEval([p \in C |-> OverlapArea(gs.poly[p[1]+1], gd.poly[p[2]+1])])
      RECURSIVE tot(_)
      tot(S) == IF S = {} THEN R(0) ELSE LET p == CHOOSE q \in S : TRUE IN a[p] ++ tot(S \ {p})
      ratio == RFrac(999999999, 1000000000) ** RFrac(1000, 1000)
  IN [ cells |-> {d \in 0..Len(gd.poly)-1 : (ratio ** gd.area[d+1]) \preceq tot({p \in C : p[2] = d})},
       src   |-> \A s \in 0..Len(gs.poly)-1 : (ratio ** gs.area[s+1]) \preceq tot({p \in C : p[1] = s}) ]

\* -------------------------------------------------------------- an object --
\* src, dst: grids held (0: none); cs, cd: grids of the last computation (0: never);
\* seen: what is known of the weights, by position; total: their number (-1: not known yet)
NewObj        == [src |-> 0, dst |-> 0, cs |-> 0, cd |-> 0, pos |-> 0, seen |-> <<>>, total |-> 0]
SetSrc(o, g)  == [o EXCEPT !.src = g]
SetDst(o, g)  == [o EXCEPT !.dst = g]
CanCompute(o) == o.src # 0 /\ o.dst # 0
Compute(o)    == [o EXCEPT !.cs = o.src, !.cd = o.dst, !.pos = 0, !.seen = <<>>, !.total = -1]
Reset(o)      == [o EXCEPT !.pos = 0]

Known(o)      == DOMAIN o.seen
\* get may report pair <<s, d>> with weight w: it is the weight at the current position
GetOK(o, s, d, w) ==
  LET none == s = -1 /\ d = -1 /\ REq(w, 0) IN
  IF o.total = 0 THEN none
  ELSE IF o.pos \in Known(o) THEN o.seen[o.pos] = <<s, d, w>>
  ELSE IF none THEN o.total = -1 /\ o.pos = 0 /\ Known(o) = {}
  ELSE s >= 0 /\ d >= 0 /\ \A p \in Known(o) : << o.seen[p][1], o.seen[p][2] >> # <<s, d>>
Get(o, s, d, w) ==
  IF s = -1 THEN [o EXCEPT !.total = 0]
  ELSE [o EXCEPT !.seen = (o.pos :> <<s, d, w>>) @@ o.seen]
\* next moves to the following weight; it returns 1 and rewinds after the last one
NextOK(o, ret) ==
  IF o.total >= 0 THEN ret = (IF o.pos + 1 >= o.total THEN 1 ELSE 0)
  ELSE ret \in {0, 1} /\ (ret = 1 => \A p \in Known(o) : p <= o.pos)
Next1(o, ret) ==
  IF ret = 0 THEN [o EXCEPT !.pos = @ + 1]
  ELSE [o EXCEPT !.pos = 0, !.total = IF o.total = -1 /\ 0 \in Known(o) THEN o.pos + 1 ELSE @]
\* all the weights are known
Complete(o)   == o.total >= 0 /\ Known(o) = 0..o.total-1
WeightSet(o)  == {o.seen[p] : p \in Known(o)}
NonZero(S)    == {t \in S : ~REq(t[3], 0)}
\* weights as a function of <<s, d>>
ByPair(o)     == TLCEval([p \in {<<t[1], t[2]>> : t \in WeightSet(o)} |-> LET t == CHOOSE u \in WeightSet(o) : <<u[1], u[2]>> = p IN t[3]])

\* ------------------------------------------------------------------ apply --
\* S: the weights <<s, d, w>>; f: source field; init, out: destination before and after
Targets(S)    == {t[2] : t \in S}
Weighted(S, f, d) == LET T == {t \in S : t[2] = d}
                         RECURSIVE sum(_)
                         sum(U) == IF U = {} THEN R(0) ELSE LET t == CHOOSE u \in U : TRUE IN (R(t[3]) ** R(f[t[1]+1])) ++ sum(U \ {t})
                     IN sum(T)
Scale(f)      == LET RECURSIVE m(_)
                     m(i) == IF i = 0 THEN R(0) ELSE RMax(RAbs(R(f[i])), m(i-1))
                 IN m(Len(f))
SameValue(a, b) == a = b \/ (RFinite(a) /\ RFinite(b) /\ REq(a, b))
ApplyOK(S, f, init, out) ==
  LET tol == Scale(f) ** RFrac(1, 1000000000) ** RFrac(1, 1000) IN
  /\ Len(out) = Len(init)
  /\ \A d \in 0..Len(out)-1 :
       IF d \in Targets(S) THEN RFinite(out[d+1]) /\ RClose(R(out[d+1]), Weighted(S, f, d), tol)
                           ELSE SameValue(out[d+1], init[d+1])
\* values of covered cells stay in the range of the field (a constant is reproduced)
BoundsOK(cov, f, out) ==
  LET RECURSIVE lo(_), hi(_)
      lo(i) == IF i = 1 THEN R(f[1]) ELSE RMin(R(f[i]), lo(i-1))
      hi(i) == IF i = 1 THEN R(f[1]) ELSE RMax(R(f[i]), hi(i-1))
      tol == Scale(f) ** RFrac(1, 100000000)
      a == lo(Len(f)) -- tol
      b == hi(Len(f)) ++ tol
  IN \A d \in cov : RFinite(out[d+1]) /\ a \preceq R(out[d+1]) /\ R(out[d+1]) \preceq b
\* integral of a field over the cells of a grid (over the destination cells in D)
Integral(g, f, D) == RSum([c \in 1..Len(f) |-> IF (c-1) \in D THEN R(f[c]) ** g.area[c] ELSE R(0)])
ConservesOK(gs, gd, f, out, D) ==
  LET tot == RSum([c \in 1..Len(f) |-> RAbs(R(f[c])) ** gs.area[c]]) IN
  RClose(Integral(gd, out, D), Integral(gs, f, 0..Len(f)-1), tot ** RFrac(1, 100000000))
=============================================================================
