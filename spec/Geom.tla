------------------------------- MODULE Geom -------------------------------
(* Plane geometry on exact rationals: what "overlap", "inside", "convex hull"  *)
(* and "part of a segment" mean for the rest of the specification.            *)
(* A point is <<x, y>>; a polygon is a sequence of points.                    *)
EXTENDS Rat, TLC, Seqs



\* (b - a) x (c - a): > 0 iff a, b, c turn counterclockwise
Cross(a, b, c) == ((b[1] -- a[1]) ** (c[2] -- a[2])) -- ((b[2] -- a[2]) ** (c[1] -- a[1]))
Dot(a, b, c)   == ((b[1] -- a[1]) ** (c[1] -- a[1])) ++ ((b[2] -- a[2]) ** (c[2] -- a[2]))
Dist2(a, b)    == Dot(a, b, b)
SamePoint(a, b) == REq(a[1], b[1]) /\ REq(a[2], b[2])
Lerp(a, b, t)  == << a[1] ++ (t ** (b[1] -- a[1])), a[2] ++ (t ** (b[2] -- a[2])) >>

NextIdx(i, n) == IF i = n THEN 1 ELSE i + 1

\* twice the signed area of a polygon
Area2(p) == RSum([i \in 1..Len(p) |-> LET q == p[NextIdx(i, Len(p))] IN
                     (p[i][1] ** q[2]) -- (q[1] ** p[i][2])])
Area(p)  == RAbs(Area2(p)) // 2
Reverse(p) == [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]
Ccw(p)   == IF RSign(Area2(p)) < 0 THEN TLCEval(Reverse(p)) ELSE p

\* no two corners turn in opposite directions, the area is not zero
Convex(p) ==
  LET s == {RSign(Cross(p[i], p[NextIdx(i, Len(p))], p[NextIdx(NextIdx(i, Len(p)), Len(p))])) : i \in 1..Len(p)}
  IN RSign(Area2(p)) # 0 /\ ~({-1, 1} \subseteq s)
StrictlyConvex(p) ==
  LET s == {RSign(Cross(p[i], p[NextIdx(i, Len(p))], p[NextIdx(NextIdx(i, Len(p)), Len(p))])) : i \in 1..Len(p)}
  IN s = {1} \/ s = {-1}

SeqMin(s) == Fold(LAMBDA m, x : IF RLeq(m, x) THEN m ELSE x, s[1], s)
SeqMax(s) == Fold(LAMBDA m, x : IF RLeq(x, m) THEN m ELSE x, s[1], s)
Xs(p) == TLCEval([i \in 1..Len(p) |-> p[i][1]])
Ys(p) == TLCEval([i \in 1..Len(p) |-> p[i][2]])
Box(p) == LET xs == Xs(p) ys == Ys(p) IN << SeqMin(xs), SeqMin(ys), SeqMax(xs), SeqMax(ys) >>
BoxesTouch(b, c) == /\ RLeq(b[1], c[3]) /\ RLeq(c[1], b[3])
                    /\ RLeq(b[2], c[4]) /\ RLeq(c[2], b[4])
TouchingBoxes(b, bs) == {k \in DOMAIN bs : BoxesTouch(b, bs[k])}

\* The part of the convex polygon p on the left of a -> b (Sutherland-Hodgman step)
RECURSIVE HalfPlane(_, _, _, _)
HalfPlane(p, a, b, i) ==
  IF i > Len(p) THEN <<>>
  ELSE LET q  == p[i]
           r  == p[NextIdx(i, Len(p))]
           sq == Cross(a, b, q)
           sr == Cross(a, b, r)
           t  == sq // (sq -- sr)
           keep == IF RSign(sq) >= 0 THEN <<q>> ELSE <<>>
           cut  == IF RSign(sq) * RSign(sr) < 0 THEN << Lerp(q, r, t) >> ELSE <<>>
       IN keep \o cut \o HalfPlane(p, a, b, i + 1)
RECURSIVE ClipFrom(_, _, _)
ClipFrom(p, c, i) ==
  IF i > Len(c) \/ p = <<>> THEN p
  ELSE ClipFrom(HalfPlane(p, c[i], c[NextIdx(i, Len(c))], 1), c, i + 1)
\* intersection of two convex polygons of any orientation
ClipPoly(p, c) == ClipFrom(p, Ccw(c), 1)
OverlapArea(p, c) == LET r == ClipPoly(p, c) IN IF Len(r) < 3 THEN R(0) ELSE Area(r)

\* signed "distance" test: x is in the convex polygon p, or outside by less than tol
\* (compares the cross product with tol times the edge length, without square roots)
InPoly(x, p, tol) ==
  LET c == Ccw(p) IN
  \A i \in 1..Len(c) :
    LET a == c[i]
        b == c[NextIdx(i, Len(c))]
        k == Cross(a, b, x)
    IN RSign(k) >= 0 \/ RLeq(k ** k, (R(tol) ** R(tol)) ** Dist2(a, b))

\* squared distance from x to the segment a b
SegDist2(x, a, b) ==
  LET d == Dist2(a, b) IN
  IF RSign(d) = 0 THEN Dist2(a, x)
  ELSE LET t == RMax(R(0), RMin(R(1), Dot(a, b, x) // d)) IN Dist2(x, Lerp(a, b, t))
NearSegment(x, a, b, tol) == RLeq(SegDist2(x, a, b), R(tol) ** R(tol))

\* the parameters <<t0, t1>> of the part of a -> b inside the convex polygon p (<<>> if none)
RECURSIVE ClipSeg(_, _, _, _, _)
ClipSeg(a, b, c, i, iv) ==
  IF i > Len(c) THEN iv
  ELSE LET e == c[i]
           f == c[NextIdx(i, Len(c))]
           sa == Cross(e, f, a)
           sb == Cross(e, f, b)
       IN IF RSign(sa) < 0 /\ RSign(sb) < 0 THEN <<>>
          ELSE IF RSign(sa) >= 0 /\ RSign(sb) >= 0 THEN ClipSeg(a, b, c, i + 1, iv)
          ELSE LET t  == sa // (sa -- sb)
                   jv == IF RSign(sa) < 0 THEN << RMax(iv[1], t), iv[2] >> ELSE << iv[1], RMin(iv[2], t) >>
               IN IF RLt(jv[2], jv[1]) THEN <<>> ELSE ClipSeg(a, b, c, i + 1, jv)
SegInPoly(a, b, p) == ClipSeg(a, b, Ccw(p), 1, << R(0), R(1) >>)

\* Area of the convex hull of the points pts: the boundary is made of the directed pairs
\* with every other point on their left, or on the segment itself.
HullArea(pts) ==
  LET n == Len(pts)
      rep == {i \in 1..n : \A j \in 1..(i-1) : ~SamePoint(pts[i], pts[j])}
      hullEdge(i, j) == \A k \in rep \ {i, j} :
                           LET s == RSign(Cross(pts[i], pts[j], pts[k])) IN
                           \/ s > 0
                           \/ s = 0 /\ RSign(Dot(pts[k], pts[i], pts[j])) < 0
      E == {e \in rep \X rep : e[1] # e[2] /\ hullEdge(e[1], e[2])}
      term(e) == (pts[e[1]][1] ** pts[e[2]][2]) -- (pts[e[2]][1] ** pts[e[1]][2])
      RECURSIVE sum(_)
      sum(S) == IF S = {} THEN R(0) ELSE LET e == CHOOSE x \in S : TRUE IN term(e) ++ sum(S \ {e})
  IN RAbs(sum(E)) // 2
=============================================================================
