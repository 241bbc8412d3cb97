----------------------------- MODULE IndexTrace ----------------------------
(* Recorded executions of the box and side iterators.                        *)
EXTENDS Index, TraceBase
VARIABLES box,    \* object -> line that created it
          side    \* object -> abstract iterator
vars == << l, box, side >>
Init == l = 1 /\ box = <<>> /\ side = <<>>
B == Trace[box[E.o]].b
F == Trace[box[E.o]].e
SameBox == UNCHANGED box
SameSide == UNCHANGED side

OnBoxNew == E.op = "box.new" /\ box' = (E.o :> l) @@ box /\ SameSide
OnBoxDel == E.op = "box.del" /\ box' = [o \in DOMAIN box \ {E.o} |-> box[o]] /\ SameSide
OnBoxNum == E.op = "box.num" /\ UNCHANGED << box, side >> /\ Judge("C18", "wrong number of elements", E.num = Size(B, F))
OnBoxElem == E.op = "box.elem" /\ UNCHANGED << box, side >> /\ Judge("C18", "wrong multi index", E.inds = Element(B, F, E.i))
OnBoxIndex == E.op = "box.index" /\ UNCHANGED << box, side >> /\ Judge("C18", "wrong flat index", E.i = FlatIndex(B, F, E.inds))

S == side[E.o]
OnSideNew == E.op = "side.new" /\ side' = (E.o :> NewSide(E.nd)) @@ side /\ SameBox
OnSideDel == E.op = "side.del" /\ side' = [o \in DOMAIN side \ {E.o} |-> side[o]] /\ SameBox
OnSideNum == E.op = "side.num" /\ UNCHANGED << box, side >> /\ Judge("C19", "wrong number of sides", E.num = NumSides(S.nd))
OnSideReset == E.op = "side.reset" /\ side' = (E.o :> ResetSide(S)) @@ side /\ SameBox
OnSideGet == E.op = "side.get" /\ UNCHANGED << box, side >>
             /\ Judge("C19", "not the side the iteration is at", Usable(S) => E.side = SideGet(S))
OnSideNext == E.op = "side.next" /\ SameBox /\ Usable(S)
              /\ Judge("C19", "wrong status", E.ret = NextStatus(S))
              /\ side' = (E.o :> NextSide(S)) @@ side
OnStart == E.op = "start" /\ box' = <<>> /\ side' = <<>>
Next == More /\ Answered /\ Step /\
  \/ OnStart \/ OnBoxNew \/ OnBoxDel \/ OnBoxNum \/ OnBoxElem \/ OnBoxIndex
  \/ OnSideNew \/ OnSideDel \/ OnSideNum \/ OnSideReset \/ OnSideGet \/ OnSideNext
=============================================================================
