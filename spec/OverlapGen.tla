----------------------------- MODULE OverlapGen -----------------------------
(* Behaviours of the search for the cells under a polygon.                   *)
EXTENDS Overlap, GridGen
VARIABLES k, n, obj, script, done
NG == 4
VastOne == k % 60 = 31
\* monotone positions: evenly or unevenly spaced
RECURSIVE Steps(_, _, _)
Steps(r, m, i) == IF i = 0 THEN << R(0) >> ELSE LET s == Steps(r, m, i - 1) IN Append(s, s[i] ++ (IF m = 0 THEN R(1) ELSE IF m = 1 THEN RFrac(Range(Sub(r, i), 3, 5), 4) ELSE RFrac(4, 5) ++ RFrac(Range(Sub(r, i), 0, 4000), 10000)))
RectilinearOf(r, id, nn) ==
  LET tr == Chance(Sub(r, 2), 25)
      \* long axes: every position off its place by up to 0.3
      long(q, m) == TLCEval([i \in 1..m |-> R(i - 1) ++ RFrac(Range(Sub(q, i), 0, 300), 1000)])
      f(d) == LET s == IF nn[d] > 500 THEN long(Sub(r, 2 + d), nn[d]) ELSE Steps(Sub(r, 2 + d), Sub(r, 10 + d) % 3, nn[d] - 1)
                  w == Among(Sub(r, 12 + d), << R(1), R(1), RFrac(1,2), RFrac(1,3), R(2) >>)
                  o == Among(Sub(r, 14 + d), << R(0), R(0), R(-2), RFrac(-5, 3), R(10) >>)
                  sg == Among(Sub(r, 16 + d), << R(1), R(1), R(-1) >>) IN
              TLCEval([i \in 1..nn[d] |-> RRound((sg ** w ** s[i]) ++ o)])
      a == f(1)  b == f(2)
      q(i) == LET u == a[1 + ((i - 1) \div nn[2])]  v == b[1 + ((i - 1) % nn[2])] IN IF tr THEN << v, u >> ELSE << u, v >>
  IN GridLine(id, nn, Tab(nn[1] * nn[2], q))
Rectilinear(r, id) == RectilinearOf(r, id, TLCEval(Dims(Sub(r, 1))))
AffineGrid(r, id) == GridLine(id, TLCEval(Dims(Sub(r, 1))), Nodes(Sub(r, 2), TLCEval(Dims(Sub(r, 1))), Among(Sub(r, 3), Linear), Among(Sub(r, 4), << R(1), RFrac(1,2), R(3) >>), Among(Sub(r, 5), Offsets), "none", R(0)))
OwnGrid(i) == LET r == Sub(Key(k), 100 + i) IN
             IF i = NG THEN RandomGrid(r, i, R(1), << R(0), R(0) >>, 2) ELSE IF Chance(Sub(r, 99), 55) THEN Rectilinear(r, i) ELSE AffineGrid(r, i)
GridOf(i) == LET r == Sub(Key(k), 110 + i) IN IF i = 2 /\ Chance(r, 70) THEN Twin(Sub(r, 1), 2, OwnGrid(1)) ELSE OwnGrid(i)
\* a polygon over the grid: convex combinations of the nodes (inside), lattice points, nodes, or around it
PolyOf(r, g) ==
  LET p == g.p
      num == Among(Sub(r, 1), << 3, 3, 4, 4, 4, 5, 6, 1, 2, 8 >>)
      kind == Sub(r, 2) % 10
      bx == Box(p)
      e == << bx[3] -- bx[1], bx[4] -- bx[2] >>
      ij(q, i, j) == p[NodeId(g.n, i, j) + 1]
      anyNode(q) == p[1 + (q % Len(p))]
      inside(q) ==                      \* in the grid (exactly so for parallelogram grids)
        LET i == Range(Sub(q, 1), 0, g.n[1] - 2)  j == Range(Sub(q, 2), 0, g.n[2] - 2)
            u == RFrac(Range(Sub(q, 3), 0, 1000), 1000)  v == RFrac(Range(Sub(q, 4), 0, 1000), 1000)
            a == Lerp(ij(q, i, j), ij(q, i + 1, j), u)  b == Lerp(ij(q, i, j + 1), ij(q, i + 1, j + 1), u) IN Lerp(a, b, v)
      small(q, c) == << c[1] ++ (e[1] ** RFrac(Range(Sub(q, 5), -100, 100), 1500)), c[2] ++ (e[2] ** RFrac(Range(Sub(q, 6), -100, 100), 1500)) >>
      around(q) == << bx[1] ++ (e[1] ** RFrac(Range(Sub(q, 7), -100, 200), 100)), bx[2] ++ (e[2] ** RFrac(Range(Sub(q, 8), -100, 200), 100)) >>
      lattice(q) == << bx[1] ++ (e[1] ** RFrac(Range(Sub(q, 9), -1, 5), 4)), bx[2] ++ (e[2] ** RFrac(Range(Sub(q, 10), -1, 5), 4)) >>
      c0 == inside(Sub(r, 3))
      pt(i) == LET q == Sub(r, 20 + i) IN
               CASE kind < 3 -> inside(q) [] kind = 3 -> anyNode(q) [] kind = 4 -> small(q, c0) [] kind = 5 -> IF i = 1 THEN around(q) ELSE inside(q)
                 [] kind = 6 -> around(q) [] kind = 7 -> lattice(q) [] kind = 8 -> IF q % 2 = 0 THEN anyNode(q) ELSE inside(q) [] kind = 9 -> << small(q, c0)[1], around(q)[2] >>
      cell == << ij(r, 0, 0), ij(r, 1, 0), ij(r, 1, 1), ij(r, 0, 1) >>
      box == LET a == inside(Sub(r, 4))  b == around(Sub(r, 5)) IN << a, << b[1], a[2] >>, b, << a[1], b[2] >> >>
      \* many vertices
      long == Chance(Sub(r, 8), 4)
      \* on an ellipse in the grid
      round(i, m) ==
        LET t == (R(2) ** RPi) ** (RFrac(i, m) ++ RFrac(Sub(r, 9) % 64, 64))
            f == RFrac(Range(Sub(r, 10), 1, 30), 64)
            h == RFrac(Range(Sub(r, 11), 1, 30), 64)
            u == RFrac(1, 2) ++ (f ** RCos(t))  v == RFrac(1, 2) ++ (h ** RSin(t)) IN
        Lerp(Lerp(ij(r, 0, 0), ij(r, g.n[1] - 1, 0), u), Lerp(ij(r, 0, g.n[2] - 1), ij(r, g.n[1] - 1, g.n[2] - 1), u), v)
      many == Among(Sub(r, 1), << 33, 65, 66, 100, 129, 130 >>)
      pts == IF long THEN IF Chance(Sub(r, 12), 75) THEN Tab(many, LAMBDA i : round(i, many)) ELSE Tab(many, pt) ELSE IF Chance(Sub(r, 6), 8) THEN cell ELSE IF Chance(Sub(r, 7), 12) THEN box ELSE Tab(num, pt)
  IN Tab(2 * Len(pts), LAMBDA i : RHex(RRound(pts[1 + ((i - 1) \div 2)][1 + ((i - 1) % 2)])))
GP(i) == ParseGrid(GridOf(i))
PolyCall(o, i, j) == [op |-> "ovl.poly", o |-> o, pts |-> PolyOf(Sub(Sub(Key(k), 300 + i), j), GP(i))]
Call(op, o) == [op |-> op, o |-> o]
SrcCall(o, i) == [op |-> "ovl.src", o |-> o, g |-> i, per |-> IF Chance(Sub(Key(k), 400 + i), 85) THEN << 0, 0 >> ELSE Periodic(Sub(Key(k), 500 + i))]

Init == /\ k \in From..From+Count-1 /\ n = 0 /\ obj = <<>> /\ done = FALSE
        /\ script = << [op |-> "start", id |-> k] >> \o IF VastOne THEN <<>> ELSE Tab(NG, LAMBDA i : GridOf(i))
Add(c)    == script' = script \o c
Put(o, a) == obj' = (o :> a) @@ obj           \* the grid and the polygon (grid, number) the object holds
\* the commands enabled: no search before both a grid and a polygon are set
Walk(r, lastObj) ==
  LET o == Range(Sub(r, 1), 1, lastObj)
      c == Sub(r, 2) % 100
      i == Range(Sub(r, 3), 1, NG)
      j == Range(Sub(r, 4), 1, 5) IN
  IF o \notin DOMAIN obj THEN Put(o, << 0, FALSE >>) /\ Add(<< Call("ovl.new", o) >>)
  ELSE IF obj[o][1] = 0 \/ c < 15 THEN Put(o, << i, obj[o][2] >>) /\ Add(<< SrcCall(o, i) >>)
  ELSE IF ~obj[o][2] \/ c < 50 THEN Put(o, << obj[o][1], TRUE >>) /\ Add(<< PolyCall(o, obj[o][1], j), Call("ovl.find", o) >>)
  ELSE CASE c >= 50 /\ c < 60 -> Put(o, << obj[o][1], TRUE >>) /\ Add(<< PolyCall(o, i, j) >>)
         [] c >= 60 /\ c < 94 -> UNCHANGED obj /\ Add(<< Call("ovl.find", o) >>)
         [] c >= 94 -> obj' = [q \in DOMAIN obj \ {o} |-> obj[q]] /\ Add(<< Call("ovl.del", o) >>)
Fresh == Concat(Tab(NG, LAMBDA i : Concat(Tab(5, LAMBDA j : << Call("ovl.new", 50 + j), SrcCall(50 + j, i), PolyCall(50 + j, i, j), Call("ovl.find", 50 + j), Call("ovl.del", 50 + j) >>))))
\* one of many behaviours has a grid of more cells than two bytes can count
Vast ==
  LET r == Sub(Key(k), 600)
      nn == Among(Sub(r, 1), << << 258, 260 >>, << 3, 33005 >>, << 300, 231 >>, << 8300, 10 >> >>)
      e == IF Chance(Sub(r, 2), 50) THEN RectilinearOf(Sub(r, 3), 1, nn) ELSE GridLine(1, nn, Nodes(Sub(r, 3), nn, Among(Sub(r, 4), Linear), R(1), << R(0), R(0) >>, "none", R(0)))
      g == TLCEval(ParseGrid(e)) IN
  << e, Call("ovl.new", 1), SrcCall(1, 1) >> \o
  Concat(Tab(4, LAMBDA j : << [op |-> "ovl.poly", o |-> 1, pts |-> PolyOf(Sub(r, 10 + j), g)], Call("ovl.find", 1) >>)) \o << Call("ovl.del", 1) >>
Length == IF VastOne THEN 0 ELSE 30
Next == /\ ~done /\ k' = k
        /\ \/ n < Length /\ n' = n + 1 /\ UNCHANGED done /\ Walk(Sub(Key(k), 1000 + n), 1 + (Key(k) % 3))
           \/ n = Length /\ done' = TRUE /\ n' = n /\ UNCHANGED obj /\ script' = script \o (IF VastOne THEN Vast ELSE Fresh) /\ Emit(script')
=============================================================================
