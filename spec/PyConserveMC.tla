---------------------------- MODULE PyConserveMC ----------------------------
(* All histories of the Python calls: the wrapper keeps flags, the library   *)
(* keeps weights of the grids of its last computation.                       *)
EXTENDS PyConserve
CONSTANTS NObj, NGrid
VARIABLES obj,      \* the specification's objects
          wrap,     \* flags of a wrapper: has it a source grid, a destination array, valid weights
          lib,      \* the library's objects
          last      \* object -> what the last apply answered: <<"refused">> or the grids of the weights used
vars == << obj, wrap, lib, last >>
Os == 1..NObj
Init == /\ obj = [o \in Os |-> PyNew] /\ last = [o \in Os |-> <<>>]
        /\ wrap = [o \in Os |-> [s |-> FALSE, d |-> FALSE, w |-> FALSE]] /\ lib = [o \in Os |-> NewObj]
At(f, o, v) == [f EXCEPT ![o] = v]
Src(o, g) == /\ obj' = At(obj, o, PySrc(obj[o], g)) /\ wrap' = [wrap EXCEPT ![o].s = TRUE, ![o].w = FALSE]
             /\ lib' = At(lib, o, SetSrc(lib[o], g)) /\ last' = At(last, o, <<>>)
Dst(o, g) == /\ obj' = At(obj, o, PyDst(obj[o], g)) /\ wrap' = [wrap EXCEPT ![o].d = TRUE, ![o].w = FALSE]
             /\ lib' = At(lib, o, SetDst(lib[o], g)) /\ last' = At(last, o, <<>>)
Comp(o) == /\ obj' = At(obj, o, PyCompute(obj[o]))
           /\ IF wrap[o].s /\ wrap[o].d THEN wrap' = [wrap EXCEPT ![o].w = TRUE] /\ lib' = At(lib, o, Compute(lib[o]))
              ELSE UNCHANGED << wrap, lib >>
           /\ last' = At(last, o, <<>>)
Appl(o) == /\ last' = At(last, o, IF wrap[o].w THEN << lib[o].cs, lib[o].cd >> ELSE << "refused" >>)
           /\ UNCHANGED << obj, wrap, lib >>
Next == \E o \in Os : Comp(o) \/ Appl(o) \/ \E g \in 1..NGrid : Src(o, g) \/ Dst(o, g)
\* the wrapper agrees with the specification, and what is applied is never stale
Agrees == \A o \in Os : wrap[o].w = obj[o].valid /\ (wrap[o].s /\ wrap[o].d) = PyCan(obj[o])
Current == \A o \in Os : last[o] # <<>> =>
             IF PyReady(obj[o]) THEN last[o] = << obj[o].src, obj[o].dst >> ELSE last[o] = << "refused" >>
Library == \A o \in Os : lib[o].src = obj[o].src /\ lib[o].dst = obj[o].dst
\* a refused call changes nothing
Refusals == [][ \A o \in Os : ~PyCan(obj[o]) => (PyCompute(obj[o]) = obj[o]) ]_vars
=============================================================================
