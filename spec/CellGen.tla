------------------------------ MODULE CellGen ------------------------------
(* Behaviours of the single cell tools.                                      *)
EXTENDS Cell, GridGen
CONSTANT Mode           \* "quads", "hull", "line" or "flows"
VARIABLES k, script, done

\* ---- random convex quadrilaterals: a displaced unit square under a linear map
Corner == << << R(0), R(0) >>, << R(1), R(0) >>, << R(1), R(1) >>, << R(0), R(1) >> >>
Map2(m, off, p) == LET q == MapPt(m, p) IN << q[1] ++ off[1], q[2] ++ off[2] >>
Rnd(p) == << RRound(p[1]), RRound(p[2]) >>
RandQuad(r, amp) ==
  LET m == Among(Sub(r, 1), Linear)
      kind == Among(Sub(r, 2), Displacements)
      off == Among(Sub(r, 3), Offsets)
  IN Tab(4, LAMBDA i : LET d == Disp(Sub(r, 10 + i), kind, amp) IN
            Rnd(Map2(m, off, << Corner[i][1] ++ d[1], Corner[i][2] ++ d[2] >>)))
Rot(q, s)  == Tab(4, LAMBDA i : q[1 + ((i - 1 + s) % 4)])
Flip(q)    == << q[1], q[4], q[3], q[2] >>
Orient(r, q) == LET p == Rot(q, Sub(r, 1) % 4) IN IF Chance(Sub(r, 2), 50) THEN Flip(p) ELSE p
Shift(q, d) == Tab(4, LAMBDA i : Rnd(<< q[i][1] ++ d[1], q[i][2] ++ d[2] >>))
About(q, c, f) == Tab(4, LAMBDA i : Rnd(<< c[1] ++ (f ** (q[i][1] -- c[1])), c[2] ++ (f ** (q[i][2] -- c[2])) >>))
Mid(q) == << RSum([i \in 1..4 |-> q[i][1]]) // R(4), RSum([i \in 1..4 |-> q[i][2]]) // R(4) >>
Diff(a, b) == << b[1] -- a[1], b[2] -- a[2] >>
\* a second quadrilateral in a given relation to the first
Related(r, q) ==
  LET kind == Sub(r, 1) % 18
      o == RandQuad(Sub(r, 2), RFrac(Range(Sub(r, 3), 1, 3), 16))
      i == 1 + (Sub(r, 4) % 4)
      j == 1 + (Sub(r, 5) % 4)
      n == 1 + (i % 4)
  IN CASE kind < 5  -> o
       [] kind = 5  -> q                                                       \* the same
       [] kind = 6  -> About(q, Mid(q), Among(Sub(r,6), << RFrac(1,2), RFrac(1,4), R(3), RFrac(1, 64) >>))  \* nested
       [] kind = 7  -> About(q, q[i], Among(Sub(r,6), << RFrac(1,2), R(2), RFrac(3,4) >>))    \* nested, sharing a corner
       [] kind = 8  -> Shift(o, Diff(o[j], q[i]))                              \* a corner on a corner
       [] kind = 9  -> Shift(o, Diff(o[j], Lerp(q[i], q[n], RFrac(Range(Sub(r,6), 0, 8), 8))))   \* a corner on an edge
       [] kind = 10 -> Shift(q, Diff(q[i], q[n]))                              \* slid along an edge by its length
       [] kind = 11 -> LET d == Diff(q[i], q[n])  f == RFrac(Range(Sub(r,6), -6, 6), 4) IN Shift(q, << d[1] ** f, d[2] ** f >>)
       [] kind = 12 -> LET c == Mid(q) IN Tab(4, LAMBDA e : Rnd(<< c[1] -- (q[e][2] -- c[2]), c[2] ++ (q[e][1] -- c[1]) >>))  \* turned by 90 degrees
       [] kind = 13 -> LET c == Mid(q)  h == RFrac(3, 4) IN Tab(4, LAMBDA e : Rnd(<< c[1] ++ (h ** ((q[e][1] -- c[1]) -- (q[e][2] -- c[2]))), c[2] ++ (h ** ((q[e][1] -- c[1]) ++ (q[e][2] -- c[2]))) >>))  \* a star
       [] kind = 14 -> Shift(o, << R(Range(Sub(r,6), -1, 1)), R(Range(Sub(r,7), -1, 1)) >>)
       [] kind > 15 -> LET f == Among(Sub(r, 7), << RFrac(1, 1000), RFrac(1, 100000), RFrac(1, 10000000), R(1000), R(100000) >>)      \* of another size altogether
                           c == Among(Sub(r, 8), << q[i], Lerp(q[i], q[n], RFrac(Range(Sub(r, 6), 1, 7), 8)), Mid(q) >>)
                       IN IF Chance(Sub(r, 9), 50) THEN Shift(About(o, Mid(o), f), Diff(Mid(o), c)) ELSE Shift(About(o, o[j], f), Diff(o[j], c))
       [] kind = 15 -> Shift(q, Among(Sub(r,6), << <<RFrac(1, 4096), R(0)>>, <<RFrac(1, 1000003), RFrac(1, 2)>>, <<RFrac(1, 1000000007), RFrac(-1, 999999937)>> >>))  \* almost aligned
\* a quadrilateral that has its first node in common with another one
Pinned(r, q) == About(q, q[1], Among(r, << RFrac(1, 2), R(2), R(-1), RFrac(3, 2), RFrac(1, 16) >>))
Scaled(q, s, c) == Tab(Len(q), LAMBDA i : Rnd(<< s ** (q[i][1] ++ c[1]), s ** (q[i][2] ++ c[2]) >>))
Flat(q) == Concat(Tab(Len(q), LAMBDA i : << RHex(q[i][1]), RHex(q[i][2]) >>))
Scale1(r) == Among(r, << R(1), R(1), R(1), R(1), RFrac(1, 1024), R(1000), RFrac(1, 100) >>)
Cent(r) == Among(r, << <<R(0), R(0)>>, <<R(0), R(0)>>, <<R(10), R(-20)>>, <<RFrac(1, 3), RFrac(-7, 9)>> >>)
Call(op, o) == [op |-> op, o |-> o]

\* an object used many times, a few of them very many times
Many(r, m) == IF Chance(Sub(r, 200), 2) THEN 140 ELSE m
QuadsScript(r) ==
  << Call("qi.new", 1), Call("qi.new", 2) >> \o
  Concat(Tab(Many(r, 8), LAMBDA i :
    LET s == Sub(r, i)
        q == RandQuad(Sub(s, 1), RFrac(Range(Sub(s, 2), 1, 3), 16))
        p == Related(Sub(s, 3), q)
        sc == Scale1(Sub(r, 100))
        ce == Cent(Sub(r, 101))
        a == Flat(Scaled(Orient(Sub(s, 4), q), sc, ce))
        b == Flat(Scaled(Orient(Sub(s, 5), p), sc, ce))
        o == 1 + (Sub(s, 6) % 2)
        set(x, y, ob) == [op |-> "qi.set", o |-> ob, a |-> x, b |-> y]
    IN << set(a, b, o), Call("qi.get", o) >> \o
       (IF Chance(Sub(s, 7), 40) THEN << set(b, a, 3 - o), Call("qi.get", 3 - o) >> ELSE <<>>) \o
       (IF Chance(Sub(s, 8), 30) THEN << Call("qi.get", o) >> ELSE <<>>) \o
       (IF Chance(Sub(s, 9), 30) THEN << set(Flat(Scaled(Pinned(Sub(s, 10), Orient(Sub(s, 4), q)), sc, ce)), b, o), Call("qi.get", o) >> ELSE <<>>) \o
       (IF Chance(Sub(s, 11), 30) THEN << set(a, Flat(Scaled(Pinned(Sub(s, 12), Orient(Sub(s, 5), p)), sc, ce)), o), Call("qi.get", o) >> ELSE <<>>)))
  \o << Call("qi.del", 1), Call("qi.get", 2), Call("qi.del", 2) >>

PointSet(r) ==
  LET kind == Sub(r, 1) % 12
      n  == IF Chance(Sub(r, 9), 1) THEN Among(Sub(r, 3), << 65, 100, 130, 260 >>) ELSE IF Chance(Sub(r, 2), 5) THEN Range(Sub(r, 3), 20, 40) ELSE Range(Sub(r, 3), 0, 12)
      d  == Among(Sub(r, 4), Offsets)
      e  == << R(Range(Sub(r, 5), -3, 3)), R(Range(Sub(r, 6), -3, 3)) >>
      pt(i) == LET a == Sub(r, 20 + 2*i)  b == Sub(r, 21 + 2*i) IN
        CASE kind < 3  -> << R(a % 4), R(b % 4) >>                         \* small lattice: duplicates, aligned points
          [] kind = 3  -> << R(a % 2), R(b % 3) >>
          [] kind = 4  -> << Generic(a), Generic(b) >>
          [] kind = 5  -> LET t == RFrac(a % 9, 8) IN << d[1] ++ (t ** e[1]), d[2] ++ (t ** e[2]) >>  \* on a line
          [] kind = 6  -> LET t == RFrac(Range(a, -8, 8), 8)  w == R(1) ++ (t ** t) IN                \* on a circle (rounded)
                          << (R(1) -- (t ** t)) // w, ((t ** R(2)) // w) ** R(IF b % 2 = 0 THEN 1 ELSE -1) >>
          [] kind = 7  -> << R(a % 3) ++ RFrac(b % 3, 1000003), R(b % 3) ++ RFrac(a % 2, 1000000007) >>   \* almost coincident
          [] kind = 8  -> IF i % 3 = 0 THEN << R(a % 3), R(b % 3) >> ELSE << Generic(a), Generic(b) >>
          [] kind = 9  -> << Generic(a), Generic(b) ** RFrac(1, 1000000) >>                              \* thin
          [] kind = 10 -> << R(a % 1000), R(b % 1000) >>
          [] kind = 11 -> LET t == RFrac(a % 9, 8) IN << d[1] ++ (t ** RFrac(1, 3)), d[2] ++ (t ** RFrac(b % 2, 7)) >>
      sc == Among(Sub(r, 7), << R(1), R(1), R(1), R(1024), RFrac(1, 1024), RFrac(1, 1000000), R(100000) >>)
      ce == Cent(Sub(r, 8))
  IN Scaled(Tab(n, pt), sc, ce)
HullScript(r) ==
  Concat(Tab(14, LAMBDA i :
    LET s == Sub(r, i)
        p == PointSet(Sub(s, 1))
        hull(x) == [op |-> "hull.area", pts |-> Flat(x)]
        q == Shuffle(Sub(s, 2), p)
        dup == IF p = <<>> THEN <<>> ELSE Shuffle(Sub(s, 3), p \o Tab(2, LAMBDA j : p[1 + (Sub(s, 4 + j) % Len(p))]))
    IN << hull(p) >> \o (IF Chance(Sub(s, 9), 50) THEN << hull(q) >> ELSE <<>>) \o (IF Chance(Sub(s, 10), 30) THEN << hull(dup) >> ELSE <<>>)))

\* segments in the coordinates of the cell: lattice positions (corners, edges, outside) or generic ones
CellPos(r) == LET kind == Sub(r, 1) % 8 IN
  CASE kind < 3  -> << RFrac(Range(Sub(r, 2), -2, 6), 4), RFrac(Range(Sub(r, 3), -2, 6), 4) >>
    [] kind = 3  -> << R(Sub(r, 2) % 2), R(Sub(r, 3) % 2) >>
    [] kind = 4  -> << RFrac(Range(Sub(r, 2), 1, 15), 16), RFrac(Range(Sub(r, 3), 1, 15), 16) >>
    [] OTHER     -> << RFrac(1, 2) ++ Generic(Sub(r, 2)), RFrac(1, 2) ++ Generic(Sub(r, 3)) >>
Segment(r, q) ==
  LET kind == Sub(r, 1) % 12
      a == Bilinear(q, CellPos(Sub(r, 2)))
      b == Bilinear(q, CellPos(Sub(r, 3)))
      i == 1 + (Sub(r, 4) % 4)
      n == 1 + (i % 4)
      t == Range(Sub(r, 5), -4, 8)
      u == Range(Sub(r, 6), t + 1, 12)
      seg == CASE kind < 5 -> << a, b >>
               [] kind = 5 -> << Lerp(q[i], q[n], RFrac(t, 4)), Lerp(q[i], q[n], RFrac(u, 4)) >>    \* along an edge
               [] kind = 6 -> << Lerp(q[i], q[1 + ((i+1) % 4)], RFrac(t, 4)), Lerp(q[i], q[1 + ((i+1) % 4)], RFrac(u, 4)) >>  \* along a diagonal
               [] kind = 7 -> << Lerp(a, q[i], R(1)), Lerp(a, q[i], RFrac(Range(Sub(r,7), -8, 8), 4)) >>   \* from or through a corner
               [] kind = 8 -> << Lerp(q[i], q[n], RFrac(Range(Sub(r,7), 0, 4), 4)), b >>             \* from an edge
               [] kind > 9 -> LET g == Bilinear(q, << RFrac(1, 2) ++ Generic(Sub(r, 9)), RFrac(1, 2) ++ Generic(Sub(r, 10)) >>)      \* a long line
                                  h == Bilinear(q, << RFrac(1, 2) ++ Generic(Sub(r, 11)), RFrac(1, 2) ++ Generic(Sub(r, 12)) >>)
                                  f == << R(1), R(30), R(1000), R(100000), R(10000000) >> IN
                              << Lerp(g, h, RNeg(Among(Sub(r, 13), f))), Lerp(g, h, Among(Sub(r, 14), f)) >>
               [] kind = 9 -> << << a[1] ++ R(5), a[2] >>, << b[1] ++ R(5), b[2] ++ R(Sub(r,7) % 2) >> >>
  IN IF SamePoint(Rnd(seg[1]), Rnd(seg[2])) THEN << Rnd(seg[1]), Rnd(<< seg[1][1] ++ R(1), seg[1][2] >>) >>
     ELSE IF Chance(Sub(r, 8), 50) THEN << Rnd(seg[2]), Rnd(seg[1]) >> ELSE << Rnd(seg[1]), Rnd(seg[2]) >>
LineScript(r) ==
  << Call("qli.new", 1), Call("qli.new", 2) >> \o
  Concat(Tab(Many(r, 10), LAMBDA i :
    LET s == Sub(r, i)
        q == Orient(Sub(s, 4), RandQuad(Sub(Sub(r, (i + 1) \div 2), 1), RFrac(Range(Sub(s, 2), 1, 3), 16)))
        g == Segment(Sub(s, 3), q)
        sc == Scale1(Sub(r, 100))
        ce == Cent(Sub(r, 101))
        o == 1 + (Sub(s, 6) % 2)
        c == << [op |-> "qli.quad", o |-> o, q |-> Flat(Scaled(q, sc, ce))], [op |-> "qli.line", o |-> o, l |-> Flat(Scaled(g, sc, ce))] >>
    IN (IF Chance(Sub(s, 7), 50) THEN c ELSE << c[2], c[1] >>) \o << Call("qli.get", o) >> \o
       (IF Chance(Sub(s, 8), 30) THEN << [op |-> "qli.line", o |-> o, l |-> Flat(Scaled(<< g[2], g[1] >>, sc, ce))], Call("qli.get", o) >> ELSE <<>>) \o
       (IF Chance(Sub(s, 9), 20) THEN << Call("qli.get", o) >> ELSE <<>>) \o
       (IF Chance(Sub(s, 10), 35) THEN << [op |-> "qli.quad", o |-> o, q |-> Flat(Scaled(Pinned(Sub(s, 11), q), sc, ce))], Call("qli.get", o) >> ELSE <<>>)  \o
       (IF Chance(Sub(s, 12), 25) THEN << [op |-> "qli.line", o |-> o, l |-> Flat(Scaled(<< g[1], Rnd(Lerp(g[1], g[2], RFrac(Range(Sub(s, 13), -3, 7) * 2 + 1, 4))) >>, sc, ce))], Call("qli.get", o) >> ELSE <<>>)))
  \o << Call("qli.del", 1), Call("qli.del", 2) >>

\* cells with nodes counterclockwise from the low corner, segments inside
FlowQuad(r) == LET q == RandQuad(r, RFrac(Among(Sub(r, 50), <<0, 1, 2, 2>>), 16)) IN IF RSign(Area2(q)) < 0 THEN Flip(q) ELSE q
UnitPos(r) == LET kind == Sub(r, 1) % 4 IN
  CASE kind = 0 -> << R(Sub(r, 2) % 2), R(Sub(r, 3) % 2) >>
    [] kind = 1 -> << RFrac(Range(Sub(r, 2), 0, 4), 4), R(Sub(r, 3) % 2) >>
    [] kind = 2 -> << RFrac(Range(Sub(r, 2), 0, 8), 8), RFrac(Range(Sub(r, 3), 0, 8), 8) >>
    [] kind = 3 -> << (R(1) ++ Generic(Sub(r, 2))) // R(2), (R(1) ++ Generic(Sub(r, 3))) // R(2) >>
FlowScript(r) ==
  << Call("qlf.new", 1), Call("qlf.new", 2) >> \o
  Concat(Tab(Many(r, 10), LAMBDA i :
    LET s == Sub(r, i)
        sc == Among(Sub(r, 100), << R(1), R(1), R(10), RFrac(1, 16) >>)
        ce == Cent(Sub(r, 101))
        q == Scaled(FlowQuad(Sub(Sub(r, (i + 1) \div 2), 1)), sc, ce)
        x == UnitPos(Sub(s, 2))
        y == UnitPos(Sub(s, 3))
        a == Rnd(Bilinear(q, x))
        b == Rnd(Bilinear(q, y))
        o == 1 + (Sub(s, 6) % 2)
        line(u, v) == [op |-> "qlf.line", o |-> o, l |-> Flat(<< u, v >>)]
        c == << [op |-> "qlf.quad", o |-> o, q |-> Flat(q)], line(a, b) >>
    IN (IF Chance(Sub(s, 7), 50) THEN c ELSE << c[2], c[1] >>) \o << Call("qlf.compute", o) >> \o
       (IF Chance(Sub(s, 8), 40) THEN << line(b, a), Call("qlf.compute", o) >> ELSE <<>>) \o
       (IF Chance(Sub(s, 9), 20) THEN << Call("qlf.compute", o) >> ELSE <<>>) \o
       (IF Chance(Sub(s, 14), 20) THEN LET far(t) == << RRound(a[1] ++ (R(IF Chance(t, 50) THEN 3 ELSE -3) ** Extent(q))), RRound(a[2] ++ (R(Range(Sub(t, 1), -2, 2)) ** Extent(q))) >> IN
          << IF Chance(Sub(s, 15), 45) THEN line(far(Sub(s, 16)), b) ELSE IF Chance(Sub(s, 17), 80) THEN line(a, far(Sub(s, 16))) ELSE line(far(Sub(s, 16)), far(Sub(s, 18))),
             Call("qlf.compute", o) >> \o (IF Chance(Sub(s, 19), 60) THEN << line(a, b), Call("qlf.compute", o) >> ELSE <<>>) ELSE <<>>) \o
       (IF Chance(Sub(s, 10), 40) THEN LET p == Pinned(Sub(s, 11), q) IN
          << [op |-> "qlf.quad", o |-> o, q |-> Flat(p)], line(Rnd(Bilinear(p, x)), Rnd(Bilinear(p, y))), Call("qlf.compute", o) >> ELSE <<>>) \o
       (IF Chance(Sub(s, 12), 30) THEN << [op |-> "qlf.quad", o |-> o, q |-> Flat(q)], line(a, Rnd(Bilinear(q, UnitPos(Sub(s, 13))))), Call("qlf.compute", o) >> ELSE <<>>)))
  \o << Call("qlf.del", 1), Call("qlf.del", 2) >>

Plan(i) == LET r == Key(i) IN
  CASE Mode = "quads" -> QuadsScript(r) [] Mode = "hull" -> HullScript(r) [] Mode = "line" -> LineScript(r) [] Mode = "flows" -> FlowScript(r)
Init == k \in From..From+Count-1 /\ script = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ script' = << [op |-> "start", id |-> k] >> \o Plan(k) /\ Emit(script')
=============================================================================
