--------------------------- MODULE ConserveTrace ---------------------------
(* Recorded executions of the conservative regridder.                        *)
EXTENDS Conserve, TraceBase
VARIABLES obj,     \* object name -> abstract object, plus what the driver measured
          grid,    \* grid name -> line of the trace that defined it
          cov,     \* <<cs, cd>> -> coverage of the grids (property C02)
          memo     \* what the weights and results were for given grids (property C04)
vars == << l, obj, grid, cov, memo >>

GT == TLCEval([k \in {i \in 1..Len(Trace) : Trace[i].op = "grid"} |-> Prepare(Trace[k])])

Init == l = 1 /\ obj = <<>> /\ grid = <<>> /\ cov = <<>> /\ memo = <<>>
O == obj[E.o]
Upd(o) == obj' = (E.o :> o) @@ obj
NoCov == {}

\* ask: a question asked of the weights of cs, cd; the answer never depends on anything else
Agrees(ask, ans) == ask \in DOMAIN memo => memo[ask] = ans
Remember(ask, ans) == memo' = IF "C04" \in Aspect THEN (ask :> ans) @@ memo ELSE memo
Ask(what) == << what, O.o.cs, O.o.cd >>

Same == UNCHANGED << grid, cov, memo >>
\* obj[o] = [o |-> abstract object, mat |-> weights seen through apply (<<>>: not asked)]
Put(a) == Upd([o |-> a, mat |-> O.mat, touched |-> O.touched])

RECURSIVE Dump(_, _, _, _, _)
\* the object after reset and get, next, get, next ... reported s, d, w; <<FALSE>> if not allowed
Dump(o, s, d, w, i) ==
  IF ~GetOK(o, s[i], d[i], w[i]) THEN << FALSE, o >>
  ELSE LET a == Get(o, s[i], d[i], w[i])
           r == IF i = Len(s) THEN 1 ELSE 0 IN
       IF ~NextOK(a, r) THEN << FALSE, o >>
       ELSE IF i = Len(s) THEN << TRUE, Next1(a, 1) >> ELSE Dump(Next1(a, 0), s, d, w, i + 1)

\* a complete pass agrees with the matrix that apply uses
MatOK(o, mat) == (mat # <<>> /\ Complete(o)) => NonZero(WeightSet(o)) = mat[1]

OnNew == /\ E.op = "cons.new"
         /\ Upd([o |-> NewObj, mat |-> <<>>, touched |-> {}]) /\ Same
OnDel == E.op = "cons.del" /\ obj' = [k \in DOMAIN obj \ {E.o} |-> obj[k]] /\ Same
OnSrc == E.op = "cons.src" /\ Judge("C04", "the caller's arrays were modified", ~E.mod) /\ Put(SetSrc(O.o, grid[E.g])) /\ Same
OnDst == E.op = "cons.dst" /\ Judge("C04", "the caller's arrays were modified", ~E.mod) /\ Put(SetDst(O.o, grid[E.g])) /\ Same
OnCompute ==
  /\ E.op = "cons.compute"
  /\ Upd([o |-> Compute(O.o), mat |-> <<>>, touched |-> {}])
  /\ LET p == << O.o.src, O.o.dst >> IN
     cov' = IF "C02" \in Aspect /\ p \notin DOMAIN cov THEN (p :> CoverageOf(GT[p[1]], GT[p[2]])) @@ cov ELSE cov
  /\ UNCHANGED << grid, memo >>
OnReset == E.op = "cons.reset" /\ Put(Reset(O.o)) /\ Same
OnGet ==
  /\ E.op = "cons.get"
  /\ Judge("C03", "get reports another weight than the iteration is at", GetOK(O.o, E.s, E.d, E.w))
  /\ Put(Get(O.o, E.s, E.d, E.w)) /\ Same
OnNext ==
  /\ E.op = "cons.next"
  /\ Judge("C03", "next returns a wrong status", NextOK(O.o, E.ret))
  /\ LET a == Next1(O.o, E.ret) IN
     /\ Judge("C03", "a complete pass did not visit the weights that apply uses", MatOK(a, O.mat))
     /\ Put(a)
  /\ Same
OnDump ==
  /\ E.op = "cons.dump"
  /\ Judge("C03", "next never returns 1", E.stop = 1)
  /\ LET r  == Dump(Reset(O.o), E.s, E.d, E.w, 1)
         ws == {<< E.s[i], E.d[i], E.w[i] >> : i \in 1..Len(E.s)}
         ps == {<< t[1], t[2] >> : t \in ws} IN
     /\ Judge("C03", "a pass is not the sequence of all weights, once each", r[1] /\ MatOK(r[2], O.mat))
     /\ Judge("C04", "different weights for the same grids", Agrees(Ask("weights"), ws))
     /\ Remember(Ask("weights"), ws)
     /\ O.o.cs # 0 =>
          LET none == ws = {<< -1, -1, E.w[1] >>}
              by == IF none THEN <<>> ELSE TLCEval([p \in ps |-> (CHOOSE u \in ws : <<u[1], u[2]>> = p)[3]]) IN
          /\ Judge("C01", "a cell pair is reported twice", none \/ (Cardinality(ps) = Len(E.s) /\ \A t \in ws : RFinite(t[3])))
          /\ Judge("C01", "a weight is not the exact overlap fraction", WeightsExact(GT[O.o.cs], GT[O.o.cd], by))
     \* whatever was judged above, go on with what was reported
     /\ LET all == [i \in 0..Len(E.s)-1 |-> << E.s[i+1], E.d[i+1], E.w[i+1] >>] IN
        Put([O.o EXCEPT !.pos = 0, !.seen = IF E.s[1] = -1 THEN <<>> ELSE all, !.total = IF E.s[1] = -1 THEN 0 ELSE Len(E.s)])
  /\ UNCHANGED << grid, cov >>
OnUnit ==
  /\ E.op = "cons.unit"
  /\ LET m == {<< E.s[i], E.d[i], E.w[i] >> : i \in 1..Len(E.s)}
         t == {E.touched[i] : i \in 1..Len(E.touched)} IN
     /\ Judge("C03", "the weights that apply uses are not those of the iteration", MatOK(O.o, << m >>))
     /\ Judge("C04", "different matrix for the same grids", Agrees(Ask("unit"), << m, t >>))
     /\ Remember(Ask("unit"), << m, t >>)
     /\ Upd([o |-> O.o, mat |-> << m >>, touched |-> t])
  /\ UNCHANGED << grid, cov >>
OnApply ==
  /\ E.op = "cons.apply"
  /\ LET S == WeightSet(O.o)
         c == << O.o.cs, O.o.cd >>
         ask == << "apply", O.o.cs, O.o.cd, E.f, E.init >> IN
     /\ Judge("C02", "the source field was modified", ~E.mod)
     /\ Judge("C02", "a value is not the weighted sum, or an unweighted cell was changed",
              Complete(O.o) => ApplyOK(S, E.f, E.init, E.out))
     /\ Judge("C02", "a covered cell is outside the range of the field",
              c \in DOMAIN cov => BoundsOK(cov[c].cells, E.f, E.out))
     /\ Judge("C02", "the integral is not conserved",
              (c \in DOMAIN cov /\ Complete(O.o) /\ cov[c].src) => ConservesOK(GT[c[1]], GT[c[2]], E.f, E.out, Targets(S)))
     /\ Judge("C04", "different result for the same grids and field", Agrees(ask, E.out))
     /\ Remember(ask, E.out)
  /\ UNCHANGED << obj, grid, cov >>
OnGrid  == E.op = "grid" /\ grid' = (E.id :> l) @@ grid /\ UNCHANGED << obj, cov, memo >>
           \* the generator only makes grids with convex cells
           /\ Assert(AllConvex(GT[l]), "the grid is outside the scope of the properties")
OnStart == E.op = "start" /\ obj' = <<>> /\ grid' = <<>> /\ cov' = <<>> /\ memo' = <<>>

Next == More /\ Answered /\ Step /\
        (OnStart \/ OnGrid \/ OnNew \/ OnDel \/ OnSrc \/ OnDst \/ OnCompute \/ OnReset \/ OnGet \/ OnNext \/ OnDump \/ OnUnit \/ OnApply)
=============================================================================
