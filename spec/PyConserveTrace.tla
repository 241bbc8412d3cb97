-------------------------- MODULE PyConserveTrace --------------------------
(* Recorded executions of the Python regridder.                              *)
EXTENDS PyConserve, TraceBase
VARIABLES obj, grid
vars == << l, obj, grid >>
GT == TLCEval([k \in {i \in 1..Len(Trace) : Trace[i].op = "grid"} |-> Prepare(Trace[k])])
Init == l = 1 /\ obj = <<>> /\ grid = <<>>
O == obj[E.o]
Upd(o) == obj' = (E.o :> o) @@ obj
OnStart == E.op = "start" /\ obj' = <<>> /\ grid' = <<>>
OnGrid == E.op = "grid" /\ grid' = (E.id :> l) @@ grid /\ UNCHANGED obj
          /\ Assert(AllConvex(GT[l]), "the grid is outside the scope of the properties")
OnNew == E.op = "py.new" /\ Upd(PyNew) /\ UNCHANGED grid
OnDel == E.op = "py.del" /\ obj' = [k \in DOMAIN obj \ {E.o} |-> obj[k]] /\ UNCHANGED grid
Kept == Judge("C25", "the caller's array was modified", ~E.mod)
Accepted == Judge("C25", "a call in order raised an error", E.raised = "")
Refused == Judge("C25", "a call out of order did not raise an error", E.raised # "")
OnSrc == E.op = "py.src" /\ Accepted /\ Kept /\ Upd(PySrc(O, grid[E.g])) /\ UNCHANGED grid
OnDst == E.op = "py.dst" /\ Accepted /\ Kept /\ Upd(PyDst(O, grid[E.g])) /\ UNCHANGED grid
OnCompute == /\ E.op = "py.compute" /\ (IF PyCan(O) THEN Accepted ELSE Refused)
             /\ Upd(PyCompute(O)) /\ UNCHANGED grid
OnApply ==
  /\ E.op = "py.apply" /\ Kept
  /\ IF ~PyReady(O) THEN Refused
     ELSE /\ Accepted
          /\ LET gs == GT[O.src] gd == GT[O.dst] IN
             /\ Judge("C25", "the result does not have the shape of the destination cells", E.oshape = PyShape(gd))
             /\ Judge("C25", "the result is not the field of the weights of the current grids", PyResultOK(gs, gd, E.f, E.out))
  /\ UNCHANGED << obj, grid >>
OnSpoil == E.op = "py.spoil" /\ UNCHANGED << obj, grid >>
Next == More /\ Answered /\ Step /\ (OnStart \/ OnGrid \/ OnNew \/ OnDel \/ OnSrc \/ OnDst \/ OnCompute \/ OnApply \/ OnSpoil)
=============================================================================
