---------------------------- MODULE LifecycleMC -----------------------------
(* A heap: objects own blocks, setting something replaces blocks, a          *)
(* computation is made once or again.  Looks at a correct heap are allowed;  *)
(* with any one fault (a block lost by a replacement, by a computation done  *)
(* again, or by the deletion) some repetition of the history is refused.     *)
EXTENDS Lifecycle
CONSTANTS NObj, MaxLen
Faults == {"none", "lost at set", "lost at compute", "kept by delete"}
VARIABLES fault,     \* the fault of this heap
          hist,      \* the calls of one life
          round,     \* rounds of the same life that were completed
          heap,      \* object -> [parts, results] blocks owned
          lost,      \* blocks nobody owns any more
          once,      \* block allocated by the first computation and kept
          m          \* the specification's state
vars == << fault, hist, round, heap, lost, once, m >>
Ops == {"new", "set", "compute", "del"}
Empty == [p |-> 0, r |-> 0]
\* the heap after a call: << heap, lost, once >>
Do(h, ls, on, c) ==
  LET o == c[2] IN
  CASE c[1] = "new" -> << (o :> [p |-> 0, r |-> 0]) @@ h, ls, on >>
    [] c[1] = "set" -> << [h EXCEPT ![o].p = 1], IF fault = "lost at set" /\ h[o].p = 1 THEN ls + 1 ELSE ls, on >>
    [] c[1] = "compute" -> << [h EXCEPT ![o].r = 2], IF fault = "lost at compute" /\ h[o].r # 0 THEN ls + 1 ELSE ls, 1 >>
    [] c[1] = "del" -> << [q \in DOMAIN h \ {o} |-> h[q]], IF fault = "kept by delete" /\ h[o].p = 1 THEN ls + 1 ELSE ls, on >>
RECURSIVE DoAll(_, _, _, _)
DoAll(h, ls, on, cs) == IF cs = <<>> THEN << h, ls, on >> ELSE LET d == Do(h, ls, on, Head(cs)) IN DoAll(d[1], d[2], d[3], Tail(cs))
RECURSIVE SumOf(_, _)
SumOf(h, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN 1 + h[x].p + h[x].r + SumOf(h, S \ {x})
Live == SumOf(heap, DOMAIN heap) + lost + once
Init == fault \in Faults /\ hist = <<>> /\ round = 0 /\ heap = <<>> /\ lost = 0 /\ once = 0 /\ m = Looked(NoObjects, "", 0)
Call(c) == /\ hist' = Append(hist, c)
           /\ LET d == Do(heap, lost, once, c) IN heap' = d[1] /\ lost' = d[2] /\ once' = d[3]
           /\ m' = IF c[1] = "new" THEN Created(m, c[2]) ELSE IF c[1] = "del" THEN Deleted(m, c[2]) ELSE m
           /\ UNCHANGED << fault, round >>
Build == /\ round = 0 /\ Len(hist) < MaxLen
         /\ \E o \in 1..NObj : \E a \in Ops :
              /\ IF a = "new" THEN CanCreate(m, o) ELSE CanDelete(m, o)
              /\ Call(<< a, o >>)
\* the life ends, is looked at, and is lived again
Look == m' = Looked(m, "", Live) /\ round' = 1 /\ UNCHANGED << fault, hist, heap, lost, once >>
First == round = 0 /\ hist # <<>> /\ DOMAIN heap = {} /\ Look
Again == /\ round \in 1..2 /\ round' = round + 1
         /\ LET d == DoAll(heap, lost, once, hist) IN
              heap' = d[1] /\ lost' = d[2] /\ once' = d[3] /\ m' = Looked(m, "", d[2] + d[3])
         /\ UNCHANGED << fault, hist >>
Next == Build \/ First \/ Again
S == Seen(m, "")
AllOK == \A i \in 1..Len(S) : Steady(SubSeq(S, 1, i - 1), S[i])
Allowed == fault = "none" => AllOK
\* a fault that lost a block in a life is noticed when the life has been lived three times
Refused == (round = 3 /\ lost > 0) => ~AllOK
Owned == DOMAIN heap = {} => Live = lost + once
=============================================================================
