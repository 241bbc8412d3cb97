------------------------------ MODULE GridGen ------------------------------
(* Random structured grids of convex cells, as pairs of coordinate strings.  *)
EXTENDS GenBase

\* linear maps <<a, b, c, d>>: x = a u + b v, y = c u + d v
Linear == << <<R(1), R(0), R(0), R(1)>>, <<R(1), R(0), R(0), R(1)>>, <<R(1), R(0), R(0), R(1)>>,
             <<RFrac(1,2), R(0), R(0), RFrac(1,2)>>, <<RFrac(3,4), R(0), R(0), RFrac(5,4)>>,
             <<RFrac(1,3), R(0), R(0), RFrac(2,3)>>, <<R(2), R(0), R(0), R(3)>>,
             <<R(1), R(-1), R(1), R(1)>>, <<RFrac(1,2), RFrac(-1,2), RFrac(1,2), RFrac(1,2)>>,
             <<R(1), RFrac(1,4), R(0), R(1)>>, <<R(1), RFrac(1,2), RFrac(-1,4), R(1)>>,
             <<RFrac(4,5), RFrac(-3,5), RFrac(3,5), RFrac(4,5)>>,
             <<R(0), R(1), R(1), R(0)>>, <<R(-1), R(0), R(0), R(1)>>, <<R(1), R(0), R(0), R(-1)>>,
             <<R(0), R(-1), R(1), R(0)>>, <<R(-1), R(0), R(0), R(-1)>>, <<R(0), RFrac(-3,2), RFrac(-1,2), R(0)>> >>
MapPt(m, p)   == << (m[1] ** p[1]) ++ (m[2] ** p[2]), (m[3] ** p[1]) ++ (m[4] ** p[2]) >>
Displacements == <<"none", "none", "lattice", "dyadic", "generic", "generic">>
Offsets       == << <<R(0), R(0)>>, <<R(0), R(0)>>, <<RFrac(1,2), RFrac(1,2)>>, <<R(1), R(-1)>>, <<RFrac(1,4), RFrac(-3,8)>>,
                    <<RFrac(1,3), RFrac(2,7)>>, <<R(-1), R(0)>>, <<RFrac(3,10), RFrac(1,10)>>, <<RFrac(-5,16), RFrac(7,16)>> >>
Sizes         == << 2, 2, 3, 3, 3, 4, 4, 5, 6 >>

Disp(r, kind, amp) ==
  CASE kind = "none"    -> << R(0), R(0) >>
    [] kind = "lattice" -> << RFrac(Range(Sub(r,1), -1, 1), 8) ** (amp ** R(8)), RFrac(Range(Sub(r,2), -1, 1), 8) ** (amp ** R(8)) >>
    [] kind = "dyadic"  -> << Dyadic(Sub(r,1), 4) ** amp, Dyadic(Sub(r,2), 4) ** amp >>
    [] kind = "generic" -> << Generic(Sub(r,1)) ** amp, Generic(Sub(r,2)) ** amp >>

\* nodes of a grid of n[1] x n[2] nodes centred about off: displaced lattice, linear map, scaled, moved
Nodes(r, n, m, scale, off, kind, amp) ==
  Tab(n[1] * n[2], LAMBDA k :
     LET i == (k-1) \div n[2]
         j == (k-1) % n[2]
         d == Disp(Sub(r, k), kind, amp)
         p == MapPt(m, << RFrac(2*i - (n[1]-1), 2) ++ d[1], RFrac(2*j - (n[2]-1), 2) ++ d[2] >>)
     IN << RRound((p[1] ** scale) ++ (off[1] ** scale)), RRound((p[2] ** scale) ++ (off[2] ** scale)) >>)
GridLine(id, n, nodes) ==
  [op |-> "grid", id |-> id, n |-> n,
   x |-> Tab(Len(nodes), LAMBDA k : RHex(nodes[k][1])), y |-> Tab(Len(nodes), LAMBDA k : RHex(nodes[k][2]))]
Dims(r) == LET s == Sub(r, 5) % 100 IN
           IF s = 99 THEN LET m == Range(Sub(r,6), 13, 70) IN IF Chance(Sub(r,7), 50) THEN << 2, m >> ELSE << m, 2 >> ELSE IF s < 4 THEN << 2, Range(Sub(r,6), 7, 12) >> ELSE IF s < 8 THEN << Range(Sub(r,6), 7, 12), 2 >>
           ELSE << Among(Sub(r,1), Sizes), Among(Sub(r,2), Sizes) >>
\* a fan: the first row of nodes collapsed into one point, triangular cells
Fan(r, n, scale, off) ==
  Tab(n[1] * n[2], LAMBDA k :
     LET side == r % 4                          \* the row or column that is collapsed
         i0 == (k-1) \div n[2]
         j0 == (k-1) % n[2]
         i == CASE side < 1 -> i0 [] side = 1 -> n[1] - 1 - i0 [] side = 2 -> j0 [] OTHER -> n[2] - 1 - j0
         j == IF side < 2 THEN j0 ELSE i0
         t == RFrac(j, (IF side < 2 THEN n[2] ELSE n[1]) - 1)
         \* a convex arc: points of a parabola; every cell is convex
         u == << t ** R(2) -- R(1), R(1) -- ((t ** R(2) -- R(1)) ** (t ** R(2) -- R(1))) ** RFrac(1,2) >>
     IN << RRound((u[1] ** R(i) ++ off[1]) ** scale), RRound((u[2] ** R(i) ++ off[2]) ** scale) >>)
\* amplitude of the displacements is at most maxAmp sixteenths of the spacing
QuadConvex(a, b, c, d) ==
  LET turn(u, v, w) == RSign(((v[1] -- u[1]) ** (w[2] -- u[2])) -- ((v[2] -- u[2]) ** (w[1] -- u[1])))
      s == {turn(a, b, c), turn(b, c, d), turn(c, d, a), turn(d, a, b)} IN s # {0} /\ ~({-1, 1} \subseteq s)
Mid2(a, b, t) == << a[1] ++ (t ** (b[1] -- a[1])), a[2] ++ (t ** (b[2] -- a[2])) >>
RandomGrid(r, id, scale, center, maxAmp) ==
  LET n   == TLCEval(Dims(Sub(r, 1)))
      o   == Among(Sub(r, 4), Offsets)
      off == << o[1] ++ center[1], o[2] ++ center[2] >>
      \* one cell that is a triangle: a corner on the line through two others
      flat == LET p == Nodes(Sub(r, 2), << 2, 2 >>, Among(Sub(r, 3), Linear), scale, off, "none", R(0))
                  t == RFrac(Range(Sub(r, 7), 1, 7), 8)
                  q == CASE Sub(r, 11) % 3 = 0 -> << p[1], p[2], p[3], Mid2(p[2], p[3], t) >> [] Sub(r, 11) % 3 = 1 -> << Mid2(p[2], p[3], t), p[2], p[3], p[4] >> [] OTHER -> << p[1], Mid2(p[1], p[4], t), p[3], p[4] >> IN
              Tab(4, LAMBDA i : << RRound(q[i][1]), RRound(q[i][2]) >>)
  IN IF Chance(Sub(r, 12), 4) /\ QuadConvex(flat[1], flat[3], flat[4], flat[2]) THEN GridLine(id, << 2, 2 >>, flat)
     ELSE IF Chance(Sub(r, 9), 6) THEN GridLine(id, n, Fan(Sub(r,8), n, scale, off))
     ELSE GridLine(id, n, Nodes(Sub(r, 2), n, Among(Sub(r, 3), Linear), scale, off,
                                Among(Sub(r, 5), Displacements), RFrac(Range(Sub(r, 6), 1, maxAmp), 16)))
\* a large undisplaced (or interior displaced) grid
BigGrid(r, id, n, m, scale, off) ==
  GridLine(id, n, Nodes(Sub(r, 2), n, m, scale, off, Among(Sub(r, 5), <<"none", "dyadic", "generic">>), RFrac(2, 16)))
\* ------------------------------------------------------------------ twins --
\* another grid that agrees with a given one in much, but not in everything
ConvexNodes(n, p) == \A i \in 0..n[1]-2, j \in 0..n[2]-2 :
  LET at(a, b) == p[a * n[2] + b + 1] IN QuadConvex(at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1))
TwinOf(r, id, g, kind) ==
  LET n == g.n
      m == n[1] * n[2]
      p == Tab(m, LAMBDA k : << R(g.x[k]), R(g.y[k]) >>)
      \* the vectors along the indices at the first node (of the last row: a fan has none in the first)
      e == IF n[2] = 1 THEN << R(1), RFrac(1, 4) >> ELSE LET a == p[(n[1] - 1) * n[2] + 1]  b == p[(n[1] - 1) * n[2] + 2] IN << b[1] -- a[1], b[2] -- a[2] >>
      moved(f, k) == << RRound(p[k][1] ++ (f ** e[1])), RRound(p[k][2] ++ (f ** e[2])) >>
      \* neither the first nor the last node, an inner node or a corner if there is one
      node == IF kind < 3 /\ n[1] > 2 /\ n[2] > 2 THEN Range(Sub(r, 2), 1, n[1] - 2) * n[2] + Range(Sub(r, 3), 1, n[2] - 2) + 1
              ELSE IF kind = 3 THEN Among(Sub(r, 2), << n[2], (n[1] - 1) * n[2] + 1 >>)
              ELSE IF m < 3 THEN m ELSE Range(Sub(r, 2), 2, m - 1)
      \* convex cells stay convex
      fine(q) == ConvexNodes(n, q) \/ ~ConvexNodes(n, p)
      inner(k) == LET i == (k-1) \div n[2]  j == (k-1) % n[2] IN i > 0 /\ j > 0 /\ i < n[1] - 1 /\ j < n[2] - 1
      one == Tab(m, LAMBDA k : IF k = node THEN moved(RFrac(1, 32), k) ELSE p[k])
      shift(f) == Tab(m, LAMBDA k : moved(f, k))
      up == Tab(m, LAMBDA k : << p[k][1], RRound(p[k][2] ++ ((RAbs(e[1]) ++ RAbs(e[2])) ** RFrac(1, 4))) >>)
      rows == Tab(m, LAMBDA k : p[(n[1] - 1 - ((k-1) \div n[2])) * n[2] + ((k-1) % n[2]) + 1])
      tiny == Among(Sub(r, 4), << RFrac(1, 1024), RFrac(1, 32768), RFrac(1, 1048576), RFrac(1, 16777216), RFrac(-1, 4194304), RFrac(1, 134217728), RFrac(-1, 268435456), RFrac(1, 536870912) >>)
      across == GridLine(id, << n[2], n[1] >>, Tab(m, LAMBDA k : p[((k-1) % n[1]) * n[2] + ((k-1) \div n[1]) + 1]))
  IN CASE kind < 5 -> GridLine(id, n, IF fine(one) THEN one ELSE shift(RFrac(1, 4)))
       [] kind = 5 -> LET q == Tab(m, LAMBDA k : IF inner(k) THEN moved(RFrac(1, 64), k) ELSE p[k]) IN GridLine(id, n, IF fine(q) THEN q ELSE shift(RFrac(-1, 4)))
       [] kind = 6 -> GridLine(id, n, shift(RFrac(Range(Sub(r, 5), 1, 4), 4)))
       [] kind = 7 -> GridLine(id, n, up)
       [] kind = 8 -> GridLine(id, n, LET q == shift(tiny) IN IF fine(q) THEN q ELSE up)
       [] kind = 9 -> GridLine(id, n, rows)
       [] kind = 10 -> across
       [] kind = 11 -> GridLine(id, n, Tab(m, LAMBDA k : << RRound(p[k][1] ** R(2)), RRound(p[k][2] ** R(2)) >>))
Twin(r, id, g) == TwinOf(r, id, g, Sub(r, 1) % 12)
\* the same grid moved by a tiny part of a cell: slivers of overlaps
Slid(r, id, g) == TwinOf(r, id, g, 8)
Periodic(r) == << Among(Sub(r,1), <<0,0,1>>), Among(Sub(r,2), <<0,0,1>>) >>
=============================================================================
