------------------------------ MODULE OctreeMC -----------------------------
(* All points of a small lattice (finer than the boxes) in one and two       *)
(* dimensions, also outside the domain; refining one level after the other.  *)
EXTENDS Octree, FiniteSets
CONSTANTS Levels
VARIABLES p, lev
vars == << p, lev >>
Lo == R(0)
Hi == R(8)
Coord == {RFrac(i, 2) : i \in -2..18}
D(nd) == [lo |-> [j \in 1..nd |-> Lo], hi |-> [j \in 1..nd |-> Hi]]
Pt(x) == [j \in 1..Len(x) |-> RFrac(x[j], 2)]
Init == p \in [1..1 -> -2..18] \cup [1..2 -> -2..18] /\ lev = 0
Next == lev < Levels /\ lev' = lev + 1 /\ UNCHANGED p
Nd == Len(p)
K == KeyOf(Pt(p), D(Nd).lo, D(Nd).hi, lev)
K1 == KeyOf(Pt(p), D(Nd).lo, D(Nd).hi, lev + 1)
Prefix == lev < Levels => IsPrefix(K, K1)
Contains == KeyOK(K, Pt(p), lev, D(Nd))
Nested == \A j \in 1..Nd : /\ RLeq(BoxLo(K, Nd, j, Lo, Hi), BoxLo(K1, Nd, j, Lo, Hi)) /\ RLeq(BoxHi(K1, Nd, j, Lo, Hi), BoxHi(K, Nd, j, Lo, Hi))
                          /\ REq(BoxHi(K, Nd, j, Lo, Hi) -- BoxLo(K, Nd, j, Lo, Hi), R(8) // R(2^lev))
\* every key of this level names a box; the boxes whose inside contains the point are only that of its key
AllKeys == [1..lev -> 0..(2^Nd - 1)]
Tile == lev <= 2 => \A key \in AllKeys :
  /\ BoxOK(key, Nd, [j \in 1..Nd |-> BoxLo(key, Nd, j, Lo, Hi)], [j \in 1..Nd |-> BoxHi(key, Nd, j, Lo, Hi)], D(Nd))
  /\ KeyOf([j \in 1..Nd |-> (BoxLo(key, Nd, j, Lo, Hi) ++ BoxHi(key, Nd, j, Lo, Hi)) // R(2)], D(Nd).lo, D(Nd).hi, lev) = key
  /\ (\A j \in 1..Nd : RLt(BoxLo(key, Nd, j, Lo, Hi), Pt(p)[j]) /\ RLt(Pt(p)[j], BoxHi(key, Nd, j, Lo, Hi))) => key = K
  \* of the keys of a level only those of boxes touching the point are allowed
  /\ KeyOK(key, Pt(p), lev, D(Nd)) <=> \A j \in 1..Nd : LET x == Clamp(Pt(p)[j], Lo, Hi) IN RLeq(BoxLo(key, Nd, j, Lo, Hi), x) /\ RLeq(x, BoxHi(key, Nd, j, Lo, Hi))
=============================================================================
