------------------------------ MODULE FlowTrace -----------------------------
(* Recorded executions of the flow interpolator.                             *)
EXTENDS Flow, TraceBase
VARIABLES obj,     \* object name -> abstract object (grids are lines of the trace)
          grid,    \* grid name -> line of the trace that defined it
          memo     \* <<source, polyline, field>> -> flow through the segments ("-": untouched)
vars == << l, obj, grid, memo >>

GT == TLCEval([k \in {i \in 1..Len(Trace) : Trace[i].op = "grid"} |->
        IF Len(Trace[k].n) = 2 THEN Prepare(Trace[k])
        ELSE TLCEval([i \in 1..Len(Trace[k].x) |-> << R(Trace[k].x[i]), R(Trace[k].y[i]) >>])])
\* the cell that asks for the largest tolerance
Finest == TLCEval([k \in DOMAIN GT |-> IF Len(Trace[k].n) # 2 THEN R(1)
            ELSE Fold(LAMBDA a, q : RMax(a, Finesse(q) // R(10)), R(1), GT[k].poly)])
Init == l = 1 /\ obj = <<>> /\ grid = <<>> /\ memo = <<>>
O == obj[E.o]
Upd(o) == obj' = (E.o :> o) @@ obj
Same == UNCHANGED << grid, memo >>

OnNew == E.op = "flow.new" /\ Upd(NewFlow) /\ Same
OnDel == E.op = "flow.del" /\ obj' = [q \in DOMAIN obj \ {E.o} |-> obj[q]] /\ Same
OnSrc == E.op = "flow.src" /\ Judge("C16", "the caller's arrays were modified", ~E.mod) /\ Upd(FSetSrc(O, grid[E.g])) /\ Same
OnDst == E.op = "flow.dst" /\ Judge("C16", "the caller's arrays were modified", ~E.mod) /\ Upd(FSetDst(O, grid[E.g])) /\ Same
OnCompute == E.op = "flow.compute" /\ Upd(FCompute(O)) /\ Same

\* values, with "-" where the initial content is unchanged
Flows == [i \in 1..Len(E.out) |-> IF E.out[i] = E.init[i] THEN "-" ELSE E.out[i]]
Num(x) == IF x = "-" THEN R(0) ELSE R(x)
OkNum(x) == x = "-" \/ RFinite(x)
Close(x, y, sc) == RClose(x, y, FlowTol ** sc)
RECURSIVE SumFrom(_, _, _)
SumFrom(v, i, j) == IF i >= j THEN R(0) ELSE Num(v[i]) ++ SumFrom(v, i + 1, j)
\* w: the flows through the pieces of the polyline, v: through its segments
SplitOK(v, w, first, sc) == \A i \in 1..Len(v) : Close(Num(v[i]), SumFrom(w, first[i], first[i + 1]), sc)
RevOK(v, w, sc) == \A i \in 1..Len(v) : Close(Num(v[i]), RNeg(Num(w[Len(v) + 1 - i])), sc)
\* polylines derived from another one
Derived(line, f) == line # 0 /\ f \in DOMAIN Trace[line]
RelOK(cs, cd, fl, sc) ==
  \A q \in {p \in DOMAIN memo : p[1] = cs /\ p[3] = << E.f0, E.f1 >> /\ p[2] # cd} :
     /\ (Derived(cd, "split") /\ grid[Trace[cd].split] = q[2]) => SplitOK(memo[q], fl, Trace[cd].first, sc)
     /\ (Derived(q[2], "split") /\ grid[Trace[q[2]].split] = cd) => SplitOK(fl, memo[q], Trace[q[2]].first, sc)
     /\ (Derived(cd, "rev") /\ grid[Trace[cd].rev] = q[2]) => RevOK(memo[q], fl, sc)
     /\ (Derived(q[2], "rev") /\ grid[Trace[q[2]].rev] = cd) => RevOK(fl, memo[q], sc)
\* the field is comb[1] times that of two calls ago plus comb[2] times that of the previous call
CombOK(fl, sc) ==
  LET e1 == Trace[l - 2]  e2 == Trace[l - 1]  a == R(E.comb[1])  b == R(E.comb[2])
      v(e, i) == IF e.out[i] = e.init[i] THEN R(0) ELSE R(e.out[i]) IN
  /\ Assert(e1.op = "flow.apply" /\ e2.op = "flow.apply" /\ \A i \in 1..Len(E.f0) : REq(R(E.f0[i]), (a ** R(e1.f0[i])) ++ (b ** R(e2.f0[i]))), "not a combination")
  /\ \A i \in 1..Len(fl) : Close(Num(fl[i]), (a ** v(e1, i)) ++ (b ** v(e2, i)), sc)
OnApply ==
  /\ E.op = "flow.apply"
  /\ Judge("C16", "the field was modified", ~E.mod)
  /\ UNCHANGED << obj, grid >>
  /\ IF O.cs = 0 THEN Judge("C16", "a value was written before any computation", E.out = E.init) /\ UNCHANGED memo
     ELSE LET fl == TLCEval(Flows)
              sc == (IF Has("comb") THEN RMax(FlowScale(E.f0, E.f1), RMax(FlowScale(Trace[l-1].f0, Trace[l-1].f1), FlowScale(Trace[l-2].f0, Trace[l-2].f1))) ELSE FlowScale(E.f0, E.f1)) ** R(8) ** Finest[O.cs]
              key == << O.cs, O.cd, << E.f0, E.f1 >> >> IN
          /\ \A i \in 1..Len(fl) :
               Judge("C15", "not the integral of the field along segment " \o ToString(i),
                 LET g == GT[O.cs]  p == GT[O.cd] IN FlowOK(g, Weights(g, p[i], p[i+1]), E.f0, E.f1, FlowScale(E.f0, E.f1), E.init[i], E.out[i]))
          /\ Judge("C16", "a value is not a number", \A i \in 1..Len(fl) : OkNum(fl[i]))
          /\ Judge("C16", "another flow for the same grid, polyline and field", key \in DOMAIN memo => memo[key] = fl)
          /\ Judge("C16", "not additive or not reversible", RelOK(O.cs, O.cd, fl, sc))
          /\ Judge("C16", "not linear in the field", IF Has("comb") THEN CombOK(fl, sc) ELSE TRUE)
          /\ memo' = IF "C16" \in Aspect THEN (key :> fl) @@ memo ELSE memo
\* printing the weights changes nothing
OnDebug == E.op = "flow.debug" /\ UNCHANGED << obj, grid, memo >>
OnGrid  == E.op = "grid" /\ grid' = (E.id :> l) @@ grid /\ UNCHANGED << obj, memo >>
OnStart == E.op = "start" /\ obj' = <<>> /\ grid' = <<>> /\ memo' = <<>>
Next == More /\ Answered /\ Step /\ (OnStart \/ OnGrid \/ OnNew \/ OnDel \/ OnSrc \/ OnDst \/ OnCompute \/ OnApply \/ OnDebug)
=============================================================================
