----------------------------- MODULE PyConserve -----------------------------
(* The Python regridder: an object of the package holds two grids, and       *)
(* whether the weights of the grids it holds have been computed.             *)
EXTENDS Conserve

PyNew         == [src |-> 0, dst |-> 0, valid |-> FALSE]
PySrc(o, g)   == [o EXCEPT !.src = g, !.valid = FALSE]
PyDst(o, g)   == [o EXCEPT !.dst = g, !.valid = FALSE]
PyCan(o)      == o.src # 0 /\ o.dst # 0          \* computeWeights succeeds
PyCompute(o)  == IF PyCan(o) THEN [o EXCEPT !.valid = TRUE] ELSE o
PyReady(o)    == o.valid                         \* apply succeeds

\* the destination field: the weighted sums of the exact overlap fractions, zero where there is none
PyField(gs, gd, C, f, d) ==
  RSum([s \in 1..Len(gs.poly) |-> IF << s-1, d >> \in C /\ RFinite(f[s]) THEN Fraction(gs, gd, s-1, d) ** R(f[s]) ELSE R(0)])
PyResultOK(gs, gd, f, out) ==
  LET C   == Candidates(gs, gd)
      bad == {s \in 1..Len(f) : ~RFinite(f[s])}
      sc(i) == IF i \in bad THEN R(0) ELSE RAbs(R(f[i]))
      RECURSIVE m(_)
      m(i) == IF i = 0 THEN R(0) ELSE RMax(sc(i), m(i-1))
      tol == m(Len(f)) ** RFrac(1, 100000000)
  IN \A d \in 0..Len(gd.poly)-1 :
       LET touch == {s \in bad : << s-1, d >> \in C} IN
       IF touch = {} THEN RFinite(out[d+1]) /\ RClose(R(out[d+1]), PyField(gs, gd, C, f, d), tol)
       \* an infinite or undefined value reaches the cells it overlaps
       ELSE (\E s \in touch : RFrac(1, 1000000) \preceq Fraction(gs, gd, s-1, d)) => ~RFinite(out[d+1])
PyShape(gd) == << gd.n[1] - 1, gd.n[2] - 1 >>
=============================================================================
