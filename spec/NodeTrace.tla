------------------------------ MODULE NodeTrace -----------------------------
(* Recorded executions of the nodal regridder.                               *)
EXTENDS Node, TraceBase
VARIABLES obj,     \* object name -> [o: abstract object, tol: tolerance, mat: what apply was seen to use]
          grid,    \* grid name -> line of the trace that defined it
          memo     \* what was answered for given grids and tolerance
vars == << l, obj, grid, memo >>

GT == TLCEval([k \in {i \in 1..Len(Trace) : Trace[i].op = "grid"} |->
        IF Trace[k].n[1] > 1 /\ Trace[k].n[2] > 1 THEN Prepare(Trace[k]) ELSE ParseGrid(Trace[k])])
Init == l = 1 /\ obj = <<>> /\ grid = <<>> /\ memo = <<>>
O == obj[E.o].o
Upd(o, m) == obj' = [obj EXCEPT ![E.o] = [@ EXCEPT !.o = o, !.mat = m]]
Mat == obj[E.o].mat
Same == UNCHANGED << grid, memo >>
Key(what) == << what, O.cs, O.cd, O.cper, obj[E.o].tol >>
Agrees(ask, ans) == ask \in DOMAIN memo => memo[ask] = ans
Remember(ask, ans) == memo' = IF "C06" \in Aspect THEN (ask :> ans) @@ memo ELSE memo

OnNew == E.op = "node.new" /\ obj' = (E.o :> [o |-> NewNode, tol |-> << E.tol, E.nit >>, mat |-> <<>>]) @@ obj /\ Same
OnDel == E.op = "node.del" /\ obj' = [q \in DOMAIN obj \ {E.o} |-> obj[q]] /\ Same
OnSrc == E.op = "node.src" /\ Judge("C06", "the caller's arrays were modified", ~E.mod) /\ Upd(NPeriodic(NSetSrc(O, grid[E.g]), E.per), Mat) /\ Same
OnDst == E.op = "node.dst" /\ Judge("C06", "the caller's arrays were modified", ~E.mod) /\ Upd(NSetDst(O, grid[E.g]), Mat) /\ Same
OnCompute == E.op = "node.compute" /\ Upd(NCompute(O), <<>>) /\ Same
\* the first place of the ascending numbers v from lo on (before hi) with one that is at least x
RECURSIVE FirstAt(_, _, _, _)
FirstAt(v, x, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF v[m] < x THEN FirstAt(v, x, m + 1, hi) ELSE FirstAt(v, x, lo, m)
OnUnit ==
  /\ E.op = "node.unit"
  /\ LET M == {<< E.s[i], E.d[i], E.w[i] >> : i \in 1..Len(E.s)}
         T == {E.touched[i] : i \in 1..Len(E.touched)}
         ask == Key("unit")
         row(d) == {<< E.s[i], E.w[i] >> : i \in FirstAt(E.d, d, 1, Len(E.d) + 1)..FirstAt(E.d, d + 1, 1, Len(E.d) + 1)-1} IN
     /\ Assert(\A i \in 1..Len(E.d)-1 : E.d[i] <= E.d[i + 1], "the weights are not sorted")
     /\ Judge("C06", "different weights for the same grids", Agrees(ask, << M, T >>))
     /\ Remember(ask, << M, T >>)
     /\ Upd(O, << M, T >>)
     \* (of very many nodes the first and last ones, and some between)
     /\ \A d \in {i \in 0..E.nd-1 : E.nd <= 2000 \/ i % 61 = 7 \/ i < 100 \/ i >= E.nd - 300} :
          Judge("C05", "not the bilinear interpolation at destination node " \o ToString(d),
             LET g == GT[O.cs]  x == GT[O.cd].p[d + 1]  tol == obj[E.o].tol[1] IN
             IF O.cper # << 0, 0 >> THEN TRUE ELSE IF d \in T THEN InterpOK(g, x, row(d), tol) /\ ~FarFrom(g, x, tol)
             ELSE ~InGrid(g, x))
  /\ UNCHANGED grid
OnApply ==
  /\ E.op = "node.apply"
  /\ Judge("C06", "the source field was modified", ~E.mod)
  /\ IF O.cs = 0 THEN Judge("C06", "a value was written before any computation", E.out = E.init) /\ UNCHANGED memo
     ELSE LET ask == << Key("apply"), E.f, E.init >> IN
          /\ Judge("C06", "a value is not the weighted sum, or a node without weights was changed", IF Mat = <<>> THEN TRUE ELSE NApplyOK(Mat[1], Mat[2], E.f, E.init, E.out))
          /\ Judge("C06", "different result for the same grids and field", Agrees(ask, E.out))
          /\ Remember(ask, E.out)
  /\ UNCHANGED << obj, grid >>
OnGrid  == E.op = "grid" /\ grid' = (E.id :> l) @@ grid /\ UNCHANGED << obj, memo >>
OnStart == E.op = "start" /\ obj' = <<>> /\ grid' = <<>> /\ memo' = <<>>
Next == More /\ Answered /\ Step /\ (OnStart \/ OnGrid \/ OnNew \/ OnDel \/ OnSrc \/ OnDst \/ OnCompute \/ OnUnit \/ OnApply)
=============================================================================
