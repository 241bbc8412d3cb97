------------------------------ MODULE Octree -------------------------------
(* A partition of the bounding box of a set of points into halves, quarters, *)
(* ... in each direction.  A key is a sequence of numbers 0..2^nd - 1, whose *)
(* binary digits (first direction first) choose the half at each level.      *)
EXTENDS Rat, TLC

Digit(q, nd, j)  == (q \div 2^(nd - j)) % 2           \* of direction j in 1..nd
ValidKey(key, nd) == \A i \in 1..Len(key) : key[i] \in 0..(2^nd - 1)
\* position of the key's box along direction j, in units of 2^-level
RECURSIVE Place(_, _, _, _)
Place(key, nd, j, lev) == IF lev = 0 THEN 0 ELSE (2 * Place(key, nd, j, lev - 1)) + Digit(key[lev], nd, j)
\* the box of a key in direction j, for a domain from lo to hi
BoxLo(key, nd, j, lo, hi) == lo ++ (RFrac(Place(key, nd, j, Len(key)), 2^Len(key)) ** (hi -- lo))
BoxHi(key, nd, j, lo, hi) == lo ++ (RFrac(Place(key, nd, j, Len(key)) + 1, 2^Len(key)) ** (hi -- lo))
Clamp(x, lo, hi) == RMax(lo, RMin(hi, x))
\* the key of a point: of several boxes touching at the point, the upper one (but the last at the end)
PlaceOf(x, lo, hi, lev) == LET k == RFloor(((Clamp(x, lo, hi) -- lo) // (hi -- lo)) ** R(2^lev)) IN IF k = 2^lev THEN k - 1 ELSE k
KeyOf(p, lo, hi, lev) ==
  LET nd == Len(p)
      pl == TLCEval([j \in 1..nd |-> PlaceOf(p[j], lo[j], hi[j], lev)])
      RECURSIVE flat(_, _)
      flat(i, j) == IF j > nd THEN 0 ELSE (((pl[j] \div 2^(lev - i)) % 2) * 2^(nd - j)) + flat(i, j + 1)
  IN [i \in 1..lev |-> flat(i, 1)]
IsPrefix(k1, k2) == Len(k1) <= Len(k2) /\ \A i \in 1..Len(k1) : k1[i] = k2[i]
Points(c, nd) == TLCEval([i \in 1..(Len(c) \div nd) |-> [j \in 1..nd |-> R(c[(i-1)*nd + j])]])
RECURSIVE Least(_, _), Most(_, _)
Least(p, j) == IF Len(p) = 1 THEN p[1][j] ELSE RMin(p[1][j], Least(Tail(p), j))
Most(p, j)  == IF Len(p) = 1 THEN p[1][j] ELSE RMax(p[1][j], Most(Tail(p), j))
Domain(c, nd) == LET p == Points(c, nd) IN [lo |-> TLCEval([j \in 1..nd |-> Least(p, j)]), hi |-> TLCEval([j \in 1..nd |-> Most(p, j)])]

Slack == RFrac(1, 1000000000) ** RFrac(1, 1000)       \* of the extent
\* the key's box contains the point (up to rounding); if the point is well inside a box, there is no other answer
KeyOK(key, p, lev, d) ==
  LET nd == Len(p) IN
  /\ Len(key) = lev /\ ValidKey(key, nd)
  /\ \A j \in 1..nd : LET x == Clamp(p[j], d.lo[j], d.hi[j])  e == Slack ** (d.hi[j] -- d.lo[j]) IN
        /\ (BoxLo(key, nd, j, d.lo[j], d.hi[j]) -- e) \preceq x
        /\ x \preceq (BoxHi(key, nd, j, d.lo[j], d.hi[j]) ++ e)
BoxOK(key, nd, lo, hi, d) ==
  /\ Len(lo) = nd /\ Len(hi) = nd
  /\ \A j \in 1..nd : LET e == Slack ** (RMax(RAbs(d.hi[j]), RAbs(d.lo[j]))) IN
        /\ RFinite(lo[j]) /\ RFinite(hi[j])
        /\ RClose(R(lo[j]), BoxLo(key, nd, j, d.lo[j], d.hi[j]), e)
        /\ RClose(R(hi[j]), BoxHi(key, nd, j, d.lo[j], d.hi[j]), e)
=============================================================================
