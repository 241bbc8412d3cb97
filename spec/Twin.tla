-------------------------------- MODULE Twin --------------------------------
(* Two executions of related scripts must answer alike: what a call answers  *)
(* is a function of the calls made before on the same object.                *)
(*  "again"  the same script, in another process with other garbage in fresh *)
(*           memory (C29)                                                    *)
(*  "alone"  only the calls on one object (C30)                              *)
(*  "looks"  without some of the calls that only look (C31)                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* calls that hand out a result (or write it to the caller's arrays) and must not change anything
Looks == { "cons.apply", "cons.unit", "cons.get", "node.apply", "node.unit", "flow.apply", "flow.debug", "ovl.find", "find.look", "qi.get", "qli.get", "qlf.compute",
           "ls.sol", "ls.res", "box.num", "box.elem", "box.index", "side.num", "side.get", "oct.key", "oct.node", "oct.box", "cmd.get", "cmd.help",
           "tri.get", "tri.some", "line.get", "triangle.get", "tetra.get", "held", "hull.area", "mk.rect", "mk.polar", "mk.rot" }
\* what holds the data of the scripts, not an object of the library
Data == {"start", "grid"}
\* the class an object belongs to: the part of the name of the call before the dot
RECURSIVE Upto(_, _)
Upto(op, n) == IF SubSeq(op, n + 1, n + 1) = "." THEN SubSeq(op, 1, n) ELSE Upto(op, n + 1)
Class == [op \in {"start", "grid", "held"} |-> op]
ClassOf(c) == IF c.op = "held" THEN c.kind ELSE IF c.op \in DOMAIN Class THEN Class[c.op] ELSE Upto(c.op, 1)
\* the object a call is made on; a function without an object stands alone
On(c, i) == IF "o" \in DOMAIN c THEN << ClassOf(c), c.o >> ELSE << ClassOf(c), -i >>
\* the calls of script s, by number, that are made on x, and those that remain when looks are left out
OfObject(s, x) == {i \in DOMAIN s : s[i].op \in Data \/ On(s[i], i) = x}
WithoutLooks(s, Gone(_)) == {i \in DOMAIN s : ~(s[i].op \in Looks /\ Gone(i))}
Objects(s) == {On(s[i], i) : i \in {j \in DOMAIN s : s[j].op \notin Data}}
\* the answers of a part of a script are those the whole script had at the same calls
Alike(whole, part, at) == \A i \in DOMAIN part : part[i] = whole[at[i]]
=============================================================================
