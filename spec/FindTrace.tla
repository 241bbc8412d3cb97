------------------------------ MODULE FindTrace -----------------------------
(* Recorded executions of the point search.                                  *)
EXTENDS Find, TraceBase
VARIABLES obj,     \* object name -> abstract object (its grid is a line of the trace, numbers are kept as text)
          grid,    \* grid name -> line of the trace that defined it
          memo     \* what was observed of a search, step by step
vars == << l, obj, grid, memo >>

GT == TLCEval([k \in {i \in 1..Len(Trace) : Trace[i].op = "grid"} |-> ParseG(Trace[k])])
Init == l = 1 /\ obj = <<>> /\ grid = <<>> /\ memo = <<>>
O == obj[E.o]
Upd(o) == obj' = (E.o :> o) @@ obj
Same == UNCHANGED << grid, memo >>

\* one iteration, or a second one to make up for the rounding of the first on a grid of thousands of nodes a side
OneStep(g, h) == Len(h) = 1 \/ (Len(h) = 2 /\ RLeq(R(h[1]), RFrac(1, 16777216) ** RFrac(1, 16777216) ** g.size ** R(LongestSide(g))))
OnNew == E.op = "find.new" /\ Upd([f |-> NewFind(E.nit, E.tol), rs |-> 0, saw |-> <<>>]) /\ Same
OnDel == E.op = "find.del" /\ obj' = [q \in DOMAIN obj \ {E.o} |-> obj[q]] /\ Same
OnSet == E.op = "find.grid" /\ Judge("C09", "the caller's arrays were modified", ~E.mod) /\ Upd([O EXCEPT !.f = FSetGrid(@, grid[E.g], E.per), !.saw = <<>>]) /\ Same
OnReset ==
  /\ E.op = "find.reset"
  /\ Judge("C09", "the caller's arrays were modified", ~E.mod)
  /\ Upd([f |-> FReset(O.f, E.idx, E.tgt), rs |-> l, saw |-> << "start" >>]) /\ Same
State == << E.idx, E.pos, E.err, E.hist >>
\* num: how many iterations this event stands for (next: 1, run: E.steps)
Observed(num) ==
  LET f   == O.f
      g   == GT[f.g]
      tgt == Nums(f.tgt)
      tol == R(f.tol)
      it  == f.iter + num
      out == E.ret = -3
      h   == E.hist IN
  /\ Judge("C07", "outside the box containing the grid, or not", (Surely(g, tgt, tol) => out) /\ (out => Possibly(g, tgt, tol)))
  /\ IF out THEN Judge("C07", "a rejected target changed the search", E.nh = f.iter /\ h = f.hist)
     ELSE /\ Judge("C07", "the history is not one error per iteration", E.nh = it /\ Len(h) = it /\ AllNum(h) /\ SubSeq(h, 1, f.iter) = f.hist /\ h[it] = E.err)
          /\ Judge("C07", "indices, position and error do not belong together", StateOK(g, tgt, E.idx, E.pos, E.err, 0, TRUE))
          /\ Judge("C07", "the status is wrong", \A i \in f.iter + 1..it : StatusOK(IF i = it THEN E.ret ELSE 0, h, i, f.nit, tol))
  /\ LET key == << f.g, f.per, f.nit, f.tol, f.start, f.tgt >>
         at(i) == << key, i >>
         \* what was seen after it iterations
         ans == << E.ret, E.idx, E.pos, E.err, h >> IN
     /\ Judge("C09", "another outcome than the same search had before", at(it) \in DOMAIN memo => memo[at(it)] = ans)
     /\ memo' = IF "C09" \in Aspect THEN (at(it) :> ans) @@ memo ELSE memo
  /\ LET rs == Trace[O.rs] IN
     IF E.op # "find.run" \/ "at" \notin DOMAIN rs THEN TRUE
     ELSE LET at == Nums(rs.at)  p == PosAt(g, at) IN
       /\ Assert(\A i \in 1..ND(g) : RLeq(R(0), at[i]) /\ RLeq(at[i], R(g.n[i] - 1)) /\ RClose(p[i], tgt[i], RFrac(1, 1000000000)), "the target is not in the grid")
       /\ Judge("C08", "an undistorted grid needs one iteration", rs.cond = "affine" => E.ret = 1 /\ OneStep(g, h))
       /\ Judge("C08", "the search did not converge within 100 iterations", rs.cond = "mild" => E.ret = 1 /\ E.nh <= 100)
       /\ Judge("C09", "a point of the annulus was not found", (rs.cond = "annulus" /\ f.nit >= 100) => E.ret = 1)
  /\ Upd([O EXCEPT !.f = FNext(f, h, E.ret), !.saw = State]) /\ UNCHANGED grid
\* a look at the search: where the last step left it, or where it starts
OnLook ==
  /\ E.op = "find.look"
  /\ LET f == O.f  g == GT[f.g]  inside == \A i \in 1..Len(f.start) : RLeq(R(0), R(f.start[i])) /\ RLeq(R(f.start[i]), R(g.n[i] - 1)) IN
     IF O.saw = <<>> THEN TRUE
     ELSE IF O.saw = << "start" >> THEN
          /\ Judge("C07", "a new search does not begin at its start", Nums(E.idx) = Nums(f.start) /\ E.nh = 0 /\ E.hist = <<>>)
          /\ Judge("C07", "position and error of the start are wrong", inside => StateOK(g, Nums(f.tgt), E.idx, E.pos, E.err, 0, TRUE))
     ELSE Judge("C07", "the search has moved without a step", State = O.saw)
  /\ UNCHANGED obj /\ Same
\* what happens after the end of a search is not specified: only the next reset matters
Over == O.f.over
OnNext == E.op = "find.next" /\ IF Over THEN obj' = [obj EXCEPT ![E.o].saw = <<>>] /\ Same ELSE Observed(1)
OnRun  == E.op = "find.run" /\ IF Over THEN obj' = [obj EXCEPT ![E.o].saw = <<>>] /\ Same ELSE Observed(IF E.ret = -3 THEN 0 ELSE E.steps)
OnGrid  == E.op = "grid" /\ grid' = (E.id :> l) @@ grid /\ UNCHANGED << obj, memo >>
OnStart == E.op = "start" /\ obj' = <<>> /\ grid' = <<>> /\ memo' = <<>>
Next == More /\ Answered /\ Step /\ (OnStart \/ (HeldJudged({"C07", "C09"}) /\ UNCHANGED << obj, grid, memo >>) \/ OnGrid \/ OnNew \/ OnDel \/ OnSet \/ OnReset \/ OnLook \/ OnNext \/ OnRun)
=============================================================================
