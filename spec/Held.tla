-------------------------------- MODULE Held --------------------------------
(* What a call returns a pointer to is the object's: it does not change      *)
(* until the next call on the same object, whatever is done to others.       *)
EXTENDS Integers, Sequences
\* family -> the calls that return such a pointer
Shows == [f \in {"ls", "find", "ovl", "qi", "qli", "tri", "line", "triangle", "tetra"} |->
  CASE f = "ls" -> {"ls.sol"} [] f = "find" -> {"find.next", "find.run", "find.look"} [] f = "ovl" -> {"ovl.find"} [] f = "qi" -> {"qi.get"} [] f = "qli" -> {"qli.get"}
    [] f = "tri" -> {"tri.get"} [] f = "line" -> {"line.get"} [] f = "triangle" -> {"triangle.get"} [] f = "tetra" -> {"tetra.get"}]
ShowOps == UNION {Shows[f] : f \in DOMAIN Shows}
FamilyOf(op) == CHOOSE f \in DOMAIN Shows : op \in Shows[f]
\* the numbers that call e returned
Numbers(e) == CASE e.op = "ls.sol" -> e.x [] e.op \in Shows["find"] -> e.hist [] e.op \in {"qi.get", "qli.get"} -> e.pts
                [] e.op = "tri.get" -> e.lat \o e.lon [] e.op \in {"line.get", "triangle.get", "tetra.get"} -> e.p [] OTHER -> <<>>
Indices(e) == CASE e.op = "ovl.find" -> e.cells [] e.op = "triangle.get" -> e.e [] e.op = "tetra.get" -> e.e \o e.f [] OTHER -> <<>>
\* the last such call on object o before line i of trace t
RECURSIVE LastShown(_, _, _, _)
LastShown(t, i, f, o) == IF t[i].op \in Shows[f] /\ t[i].o = o THEN i ELSE LastShown(t, i - 1, f, o)
HeldOK(t, i) == LET e == t[LastShown(t, i - 1, t[i].kind, t[i].o)] IN t[i].d = Numbers(e) /\ t[i].i = Indices(e)
=============================================================================
