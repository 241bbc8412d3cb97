---------------------------- MODULE OverlapTrace ----------------------------
(* Recorded executions of the search for the cells under a polygon.          *)
EXTENDS Overlap, TraceBase
VARIABLES obj,     \* object name -> [g: line of the grid, p: line of the polygon, per: flags]
          grid,    \* grid name -> line of the trace that defined it
          memo     \* what was answered for a grid and a polygon
vars == << l, obj, grid, memo >>
GT == TLCEval([k \in {i \in 1..Len(Trace) : Trace[i].op = "grid"} |-> LET g == ParseGrid(Trace[k]) IN [g |-> g, kind |-> Kind(g)]])
Poly(s) == TLCEval([i \in 1..Len(s) \div 2 |-> << R(s[2*i - 1]), R(s[2*i]) >>])
Init == l = 1 /\ obj = <<>> /\ grid = <<>> /\ memo = <<>>
O == obj[E.o]
Same == UNCHANGED << grid, memo >>
OnNew == E.op = "ovl.new" /\ obj' = (E.o :> [g |-> 0, p |-> 0, per |-> <<>>]) @@ obj /\ Same
OnDel == E.op = "ovl.del" /\ obj' = [q \in DOMAIN obj \ {E.o} |-> obj[q]] /\ Same
OnSrc == E.op = "ovl.src" /\ Judge("C10", "the caller's arrays were modified", ~E.mod) /\ obj' = [obj EXCEPT ![E.o].g = grid[E.g], ![E.o].per = E.per] /\ Same
OnPoly == E.op = "ovl.poly" /\ Judge("C10", "the caller's arrays were modified", ~E.mod) /\ obj' = [obj EXCEPT ![E.o].p = l] /\ Same
OnFind ==
  /\ E.op = "ovl.find"
  /\ LET g == GT[O.g].g  kind == GT[O.g].kind  pts == Trace[O.p].pts  poly == Poly(pts)
         key == << O.g, O.per, pts >> IN
     /\ Judge("C10", "the number of cells is not the number reported", E.num = Len(E.cells))
     /\ Judge("C10", "an index is not that of a cell, or is listed twice", Valid(g, E.cells))
     /\ IF O.per # << 0, 0 >> \/ ~InScope(g, kind, poly) THEN TRUE
        ELSE /\ Judge("C10", "a cell under the polygon is missing", IF Len(poly) < 3 THEN TRUE ELSE NoneMissed(g, poly, E.cells))
             /\ Judge("C10", "a cell far away from the polygon is listed", Close(g, kind, poly, E.cells))
     /\ Judge("C10", "another answer than for the same grid and polygon before", key \in DOMAIN memo => memo[key] = E.cells)
     /\ memo' = (key :> E.cells) @@ memo
  /\ UNCHANGED << obj, grid >>
OnGrid  == E.op = "grid" /\ grid' = (E.id :> l) @@ grid /\ UNCHANGED << obj, memo >>
OnStart == E.op = "start" /\ obj' = <<>> /\ grid' = <<>> /\ memo' = <<>>
Next == More /\ Answered /\ Step /\ (OnStart \/ (HeldJudged({"C10"}) /\ UNCHANGED << obj, grid, memo >>) \/ OnGrid \/ OnNew \/ OnDel \/ OnSrc \/ OnPoly \/ OnFind)
=============================================================================
