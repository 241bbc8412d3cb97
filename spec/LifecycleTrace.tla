--------------------------- MODULE LifecycleTrace ---------------------------
(* Recorded lives of objects of all kinds.                                   *)
EXTENDS Lifecycle, TraceBase
VARIABLE m
vars == << l, m >>
Kinds == {"cons", "node", "flow", "find", "ovl", "qi", "qli", "qlf", "ls", "box", "side", "oct", "tri", "line", "triangle", "tetra", "cmd"}
News == [c \in {x \o ".new" : x \in Kinds} |-> CHOOSE x \in Kinds : c = x \o ".new"]
Dels == [c \in {x \o ".del" : x \in Kinds} |-> CHOOSE x \in Kinds : c = x \o ".del"]
Init == l = 1 /\ m = NoObjects
OnNew == E.op \in DOMAIN News /\ Assert(CanCreate(m, << News[E.op], E.o >>), "created twice") /\ m' = Created(m, << News[E.op], E.o >>)
OnDel == E.op \in DOMAIN Dels /\ Assert(CanDelete(m, << Dels[E.op], E.o >>), "deleted twice") /\ m' = Deleted(m, << Dels[E.op], E.o >>)
OnLook == E.op = "mem.live"
          /\ Judge("C27", "a block was released in the wrong way", E.mismatch = 0)
          /\ Judge("C27", "blocks were lost: " \o ToString(E.live) \o " are live, earlier " \o ToString(Seen(m, E.tag)), LookOK(m, E.tag, E.live))
          /\ m' = Looked(m, E.tag, E.live)
OnStart == E.op = "start" /\ m' = NoObjects
OnOther == E.op \notin DOMAIN News \cup DOMAIN Dels \cup {"mem.live", "start"} /\ UNCHANGED m
Next == More /\ Answered /\ Step /\ (OnStart \/ OnNew \/ OnDel \/ OnLook \/ OnOther)
=============================================================================
