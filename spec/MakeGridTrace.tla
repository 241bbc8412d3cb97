--------------------------- MODULE MakeGridTrace ---------------------------
EXTENDS MakeGrid, TraceBase
VARIABLE tri       \* object -> line that created it
vars == << l, tri >>
Init == l = 1 /\ tri = <<>>
Pt(s) == << R(s[1]), R(s[2]) >>
Guard(id) == Judge(id, "written outside the arrays", E.guard) /\ Judge(id, "not every node was written, or others", E.written = Count2(E.n))
Rs(n) == IF Has("rows") THEN E.rows ELSE All(n)
Cs(n) == IF Has("rows") THEN E.cols ELSE All(n)
OnRect  == E.op = "mk.rect" /\ UNCHANGED tri /\ Guard("C22") /\ Judge("C22", "not evenly spaced between the corners", RectOK(E.n, Rs(E.n[1]), Cs(E.n[2]), Pt(E.lo), Pt(E.hi), E.x, E.y))
OnPolar == E.op = "mk.polar" /\ UNCHANGED tri /\ Guard("C22") /\ Judge("C22", "not the polar grid", PolarOK(E.n, Rs(E.n[1]), Cs(E.n[2]), Pt(E.c), R(E.r), E.x, E.y))
OnRot   == E.op = "mk.rot" /\ UNCHANGED tri /\ Guard("C23") /\ Judge("C23", "not the rotated grid", RotOK(E.n, Rs(E.n[1]), Cs(E.n[2]), R(E.dlat), R(E.dlon), E.x, E.y))
OnNew == E.op = "tri.new" /\ tri' = (E.o :> l) @@ tri
OnDel == E.op = "tri.del" /\ tri' = [o \in DOMAIN tri \ {E.o} |-> tri[o]]
OnGet == E.op \in {"tri.get", "tri.some"} /\ UNCHANGED tri
         /\ LET c == Trace[tri[E.o]] IN Judge("C24", "not the tripolar grid", TripolarOK(c.n[1], c.n[2], c.cap, Rs(c.n[1]), Cs(c.n[2]), E.dims, E.ext, E.lat, E.lon))
OnStart == E.op = "start" /\ tri' = <<>>
Next == More /\ Answered /\ Step /\ (OnStart \/ (HeldJudged({"C24"}) /\ UNCHANGED tri) \/ OnRect \/ OnPolar \/ OnRot \/ OnNew \/ OnDel \/ OnGet)
=============================================================================
