------------------------------- MODULE Index -------------------------------
(* Enumerations of index sets: boxes (multi indices between a begin and an   *)
(* end) and the sides of the unit cube in n dimensions.                      *)
EXTENDS Integers, Sequences, FiniteSets

\* ---------------------------------------------------------------- boxes --
\* b, e: begin (included) and end (excluded) in each dimension, e[i] >= b[i]
RECURSIVE Volume(_, _, _)
Volume(b, e, i) == IF i > Len(b) THEN 1 ELSE (e[i] - b[i]) * Volume(b, e, i + 1)   \* of dimensions i, i+1, ...
Size(b, e) == Volume(b, e, 1)
\* the k-th multi index (k from 0): the last dimension varies fastest
Element(b, e, k) == [i \in 1..Len(b) |-> b[i] + ((k \div Volume(b, e, i + 1)) % (e[i] - b[i]))]
RECURSIVE Flat(_, _, _, _)
Flat(b, e, v, i) == IF i > Len(b) THEN 0 ELSE ((v[i] - b[i]) * Volume(b, e, i + 1)) + Flat(b, e, v, i + 1)
FlatIndex(b, e, v) == Flat(b, e, v, 1)
InBox(b, e, v) == Len(v) = Len(b) /\ \A i \in 1..Len(b) : b[i] <= v[i] /\ v[i] < e[i]
\* u comes before v
Before(u, v) == \E i \in 1..Len(u) : u[i] < v[i] /\ \A j \in 1..i-1 : u[j] = v[j]

\* ---------------------------------------------------------------- sides --
\* an iterator: dimensions, position; the position n means that next has returned 1
NumSides(nd) == 3^nd
Side(nd, k) == [i \in 1..nd |-> ((k \div 3^(nd - i)) % 3) - 1]
NewSide(nd)   == [nd |-> nd, pos |-> 0]
ResetSide(s)  == [s EXCEPT !.pos = 0]
Usable(s)     == s.pos < NumSides(s.nd)     \* not past the end
NextSide(s)   == [s EXCEPT !.pos = @ + 1]
NextStatus(s) == IF s.pos + 1 < NumSides(s.nd) THEN 0 ELSE 1
SideGet(s)    == Side(s.nd, s.pos)
=============================================================================
