---------------------------- MODULE OctreeTrace ----------------------------
(* Recorded executions of the octree.                                        *)
EXTENDS Octree, TraceBase
VARIABLES tree,      \* object -> line that created it
          keys       \* <<object, point>> -> longest key seen
vars == << l, tree, keys >>
Init == l = 1 /\ tree = <<>> /\ keys = <<>>
Dom == TLCEval([i \in {j \in 1..Len(Trace) : Trace[j].op = "oct.new"} |-> Domain(Trace[i].pts, Trace[i].nd)])
D == Dom[tree[E.o]]
Nd == Trace[tree[E.o]].nd
OnNew == E.op = "oct.new" /\ tree' = (E.o :> l) @@ tree /\ UNCHANGED keys /\ Judge("C20", "the points were modified", ~E.mod)
OnDel == E.op = "oct.del" /\ tree' = [o \in DOMAIN tree \ {E.o} |-> tree[o]] /\ UNCHANGED keys
OnKey ==
  /\ E.op \in {"oct.key", "oct.node"} /\ UNCHANGED tree
  /\ Judge("C20", "the key's box does not contain the point", KeyOK(E.key, TLCEval([j \in 1..Nd |-> R(E.pt[j])]), E.lev, D))
  /\ LET q == << tree[E.o], E.pt >> IN
     /\ Judge("C20", "the key is not a prefix of the key at a higher level",
              q \in DOMAIN keys => IsPrefix(keys[q], E.key) \/ IsPrefix(E.key, keys[q]))
     /\ keys' = IF q \in DOMAIN keys /\ Len(keys[q]) >= Len(E.key) THEN keys ELSE (q :> E.key) @@ keys
OnBox == E.op = "oct.box" /\ UNCHANGED << tree, keys >>
         /\ Judge("C20", "not the box of the key", BoxOK(E.key, Nd, E.lo, E.hi, D))
OnStart == E.op = "start" /\ tree' = <<>> /\ keys' = <<>>
Next == More /\ Answered /\ Step /\ (OnStart \/ OnNew \/ OnDel \/ OnKey \/ OnBox)
=============================================================================
