------------------------------ MODULE IndexMC ------------------------------
(* All small boxes, all behaviours of small side iterators.                  *)
EXTENDS Index
CONSTANTS MaxDim, MaxExt, MaxSide, Lowest
VARIABLES box,    \* the box looked at
          k,      \* the element it is at
          side,   \* a side iterator
          seen    \* the sides visited since it was new or reset, in order
vars == << box, k, side, seen >>

Boxes == UNION { {<< b, [i \in 1..nd |-> b[i] + x[i]] >> : b \in [1..nd -> (-Lowest)..1], x \in [1..nd -> 0..MaxExt]} : nd \in 1..MaxDim }
Init == /\ box \in Boxes /\ k = 0
        /\ side \in {NewSide(n) : n \in 1..MaxSide} /\ seen = << SideGet(side) >>
        /\ (side.nd > 1 => box = << << 0 >>, << 1 >> >>)    \* the two do not interact
Walk  == k < Size(box[1], box[2]) /\ k' = k + 1 /\ UNCHANGED << box, side, seen >>
Side1 == /\ Usable(side) /\ side' = NextSide(side) /\ UNCHANGED << box, k >>
         /\ seen' = IF NextStatus(side) = 0 THEN Append(seen, SideGet(side')) ELSE seen
Reset == side' = ResetSide(side) /\ seen' = << SideGet(side') >> /\ UNCHANGED << box, k >>
Next == Walk \/ Side1 \/ Reset

B == box[1]
F == box[2]
\* element and flat index are inverse, within the box, and every multi index has its turn
Inverse  == k < Size(B, F) => InBox(B, F, Element(B, F, k)) /\ FlatIndex(B, F, Element(B, F, k)) = k
Ordered  == k + 1 < Size(B, F) => Before(Element(B, F, k), Element(B, F, k + 1))
Complete == k = 0 => /\ Size(B, F) = Cardinality({v \in [1..Len(B) -> -3..6] : InBox(B, F, v)})
                     /\ \A v \in [1..Len(B) -> -3..6] : InBox(B, F, v) => FlatIndex(B, F, v) \in 0..Size(B, F)-1 /\ Element(B, F, FlatIndex(B, F, v)) = v
SideOnce == /\ \A i, j \in 1..Len(seen) : i < j => Before(seen[i], seen[j])
            /\ ~Usable(side) => {seen[i] : i \in 1..Len(seen)} = [1..side.nd -> {-1, 0, 1}]
            /\ Usable(side) => seen[Len(seen)] = SideGet(side)
=============================================================================
