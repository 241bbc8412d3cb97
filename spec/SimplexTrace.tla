---------------------------- MODULE SimplexTrace ---------------------------
EXTENDS Simplex, TraceBase
VARIABLE made          \* <<kind, object>> -> line that created it
vars == << l, made >>
Init == l = 1 /\ made = <<>>
Kinds == {"line", "triangle", "tetra"}
NumV(t) == CASE t = "line" -> 2 [] t = "triangle" -> 3 [] t = "tetra" -> 4
SameNumbers(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RFinite(a[i]) /\ REq(R(a[i]), R(b[i]))
OnNew(t) == E.op = t \o ".new" /\ made' = (<< t, E.o >> :> l) @@ made /\ Judge("C26", "the caller's arrays were modified", ~E.mod)
OnDel(t) == E.op = t \o ".del" /\ made' = [x \in DOMAIN made \ {<< t, E.o >>} |-> made[x]]
OnGet(t) ==
  /\ E.op = t \o ".get" /\ UNCHANGED made
  /\ Judge("C26", "not the vertices it was built from", E.np = NumV(t) /\ SameNumbers(E.p, Trace[made[<< t, E.o >>]].p))
  /\ Judge("C26", "the edges do not join every pair once", t # "line" => EdgesOK(NumV(t), E.ne, E.e))
  /\ Judge("C26", "the edges do not run round the triangle", t = "triangle" => Cycle(E.e))
  /\ Judge("C26", "the faces are not the consistently oriented triples", t = "tetra" => FacesOK(E.nf, E.f))
OnStart == E.op = "start" /\ made' = <<>>
Next == More /\ Answered /\ Step /\ (OnStart \/ (HeldJudged({"C26"}) /\ UNCHANGED made) \/ \E t \in Kinds : OnNew(t) \/ OnDel(t) \/ OnGet(t))
=============================================================================
