------------------------------- MODULE FlowGen ------------------------------
(* Behaviours of the flow interpolator.                                      *)
EXTENDS Flow, GridGen
CONSTANT Mode           \* "exact" or "history"
VARIABLES k, n, obj, script, done

\* linear maps with dyadic entries: lattice points are doubles
DyadicMaps == << <<R(1), R(0), R(0), R(1)>>, <<R(1), R(0), R(0), R(1)>>, <<RFrac(1,2), R(0), R(0), RFrac(1,2)>>,
                 <<RFrac(3,4), R(0), R(0), RFrac(5,4)>>, <<R(2), R(0), R(0), R(3)>>, <<R(1), R(-1), R(1), R(1)>>,
                 <<RFrac(1,2), RFrac(-1,2), RFrac(1,2), RFrac(1,2)>>, <<R(1), RFrac(1,4), R(0), R(1)>>, <<R(1), RFrac(1,2), RFrac(-1,4), R(1)>>,
                 <<R(0), R(1), R(1), R(0)>>, <<R(-1), R(0), R(0), R(1)>>, <<R(1), R(0), R(0), R(-1)>>, <<R(0), R(-1), R(1), R(0)>> >>
DyadicOffsets == << << R(0), R(0) >>, << R(0), R(0) >>, << RFrac(1,2), RFrac(1,2) >>, << R(1), R(-1) >>, << RFrac(1,4), RFrac(-3,8) >>, << RFrac(-5,16), RFrac(7,16) >> >>
FSizes == << 2, 2, 3, 3, 3, 4, 4, 5, 6 >>

\* one of many behaviours has a grid of more edges than two bytes can count
VastOne == Mode = "exact" /\ k % 53 = 23
\* what a source grid is made of
Shape(r) == TLCEval(
  LET distorted == Chance(Sub(r, 1), 25)
      generic == Chance(Sub(r, 2), 25) IN
  [ n |-> IF VastOne THEN Among(Sub(r, 3), << << 258, 259 >>, << 2, 66000 >>, << 300, 230 >>, << 340, 250 >>, << 22000, 3 >>, << 66000, 2 >> >>) ELSE IF Mode = "exact" /\ Chance(Sub(r, 11), 8) THEN Among(Sub(r, 3), << << 2, 40 >>, << 70, 2 >>, << 12, 12 >>, << 3, 30 >>, << 17, 5 >>, << 2, 140 >>, << 18, 18 >> >>) ELSE << Among(Sub(r, 3), FSizes), Among(Sub(r, 4), FSizes) >>,
    m |-> IF generic THEN Among(Sub(r, 5), Linear) ELSE Among(Sub(r, 5), DyadicMaps),
    off |-> IF generic THEN Among(Sub(r, 6), Offsets) ELSE Among(Sub(r, 6), DyadicOffsets),
    sc |-> Among(Sub(r, 7), << R(1), R(1), R(1), RFrac(1, 16), R(64) >>),
    kind |-> IF distorted THEN Among(Sub(r, 8), << "dyadic", "generic" >>) ELSE "none",
    keep |-> Chance(Sub(r, 10), 60), lattice |-> ~distorted /\ ~generic, seed |-> Sub(r, 9) ])
\* keep: the first and the last node are not displaced
SrcGrid(id, s) ==
  LET p == Nodes(s.seed, s.n, s.m, s.sc, s.off, s.kind, RFrac(1, 8))
      q == Nodes(s.seed, s.n, s.m, s.sc, s.off, "none", R(0)) IN
  GridLine(id, s.n, IF s.keep THEN [i \in 1..Len(p) |-> IF i \in {1, Len(p)} THEN q[i] ELSE p[i]] ELSE p)
\* a source grid that has much in common with another one
TwinShape(r, s) ==
  LET kind == Sub(r, 1) % 7 IN
  CASE kind = 0 /\ s.n[1] = s.n[2] -> [s EXCEPT !.m = << @[2], @[1], @[4], @[3] >>]          \* the same first and last nodes
    [] kind \in {1, 6} -> [s EXCEPT !.n = << @[2], @[1] >>]
    [] kind = 2 -> [s EXCEPT !.sc = @ ** R(2)]
    [] kind = 3 -> [s EXCEPT !.off = << @[1] ++ RFrac(1, 4), @[2] >>]
    [] s.kind # "none" -> [s EXCEPT !.seed = Sub(r, 2), !.keep = TRUE]
    [] OTHER -> [s EXCEPT !.m = << @[1], @[2], RNeg(@[3]), RNeg(@[4]) >>]
\* the position of index coordinates u
PosOf(s, u) == LET p == MapPt(s.m, << u[1] -- RFrac(s.n[1] - 1, 2), u[2] -- RFrac(s.n[2] - 1, 2) >>) IN
               << RRound((p[1] ** s.sc) ++ (s.off[1] ** s.sc)), RRound((p[2] ** s.sc) ++ (s.off[2] ** s.sc)) >>
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* corners of a polyline in index coordinates
Tinies == << RFrac(1, 256), RFrac(1, 2048), RFrac(1, 16384), RFrac(1, 131072), RFrac(1, 1048576) >>
Close(r, m) == LET j == Range(Sub(r, 1), 0, m - 1)  t == Among(Sub(r, 2), Tinies) ** R(Range(Sub(r, 3), 1, 3)) IN
               IF Chance(Sub(r, 4), 30) THEN R(j) ++ RFrac(Range(Sub(r, 5), -4, 4), 8) ELSE IF Chance(Sub(r, 6), 50) THEN R(j) ++ t ELSE R(j) -- t
Corners(r, s, num) ==
  LET kind == IF VastOne /\ Sub(r, 1) % 10 < 7 THEN 20 ELSE IF s.lattice THEN Sub(r, 1) % 12 ELSE 6 + (Sub(r, 1) % 5)
      d == s.n
      at(i) ==
        LET a == Sub(r, 10 + 2*i)  b == Sub(r, 11 + 2*i) IN
        CASE kind = 20 -> << R(d[1] - 1) -- RFrac(a % (IF d[1] < 40 THEN 4 * (d[1] - 1) ELSE 40), 4), R(d[2] - 1) -- RFrac(b % (IF d[2] < 40 THEN 4 * (d[2] - 1) ELSE 40), 4) >>   \* at the end of a large grid
          [] kind = 0 -> << R(a % d[1]), R(b % d[2]) >>                                              \* node to node
          [] kind = 1 -> << RFrac(a % (2*d[1] - 1), 2), RFrac(b % (2*d[2] - 1), 2) >>                \* half lattice
          [] kind = 2 -> IF i % 2 = 0 THEN << RFrac(a % (4*d[1] - 3), 4), RFrac((Sub(r, 9 + 2*i) % (2*d[2] - 1)), 2) >>   \* along the axes
                         ELSE << RFrac(a % (4*d[1] - 3), 4), RFrac(b % (2*d[2] - 1), 2) >>
          [] kind = 3 -> << R(IF b % 2 = 0 THEN 0 ELSE d[1] - 1), RFrac(a % (4*d[2] - 3), 4) >>      \* on the sides
          [] kind = 4 -> << RFrac(Range(a, -2, 2*d[1]), 2), RFrac(Range(b, -2, 2*d[2]), 2) >>        \* in and out
          [] kind = 5 -> LET t == RFrac(a % 9, 8)  e == b % 2 IN << R(d[1] - 1) ** t, R(d[2] - 1) ** (IF e = 0 THEN t ELSE R(1) -- t) >>   \* along the diagonals
          [] kind = 6 -> << R(d[1] - 1) ** RFrac(Range(a, 1, 999982), 999983), R(d[2] - 1) ** RFrac(Range(b, 1, 999982), 999983) >>
          [] kind = 7 -> << R(d[1] - 1) ** RFrac(Range(a, -300000, 1299983), 999983), R(d[2] - 1) ** RFrac(Range(b, -300000, 1299983), 999983) >>
          [] kind = 8 -> << R(d[1] + 3) ++ Generic(a), R(d[2]) ** Generic(b) >>                      \* outside
          [] kind > 9 -> << Close(a, d[1]), Close(b, d[2]) >>                                        \* barely into a cell, or a crossing near a node
          [] kind = 9 -> << RFrac(1, 2) ++ RFrac(Range(a, -99999, 99999), 999983), RFrac(1, 2) ++ RFrac(Range(b, -99999, 99999), 999983) >>  \* within one cell
      axis(i) == IF kind = 2 /\ i > 1 THEN IF i % 2 = 0 THEN << at(i)[1], at(i-1)[2] >> ELSE << at(i-1)[1], at(i)[2] >> ELSE at(i)
  IN Tab(num, LAMBDA i : axis(i))
Polyline(id, pts) == [op |-> "grid", id |-> id, n |-> << Len(pts) >>,
                      x |-> Tab(Len(pts), LAMBDA i : RHex(pts[i][1])), y |-> Tab(Len(pts), LAMBDA i : RHex(pts[i][2]))]
LineOf(id, s, us) == Polyline(id, Tab(Len(us), LAMBDA i : PosOf(s, us[i])))

\* ------------------------------------------------------------------ fields --
Val(r, kind, i) == CASE kind = 0 -> R(1)
                     [] kind = 1 -> IF i = 1 THEN R(1) ELSE R(0)
                     [] kind = 2 -> R((i % 2) * 2 - 1)
                     [] kind = 3 -> R(i)
                     [] kind > 3 -> Dyadic(Sub(r, 10 + i), 10) ** R(3)
FreeField(r, d) ==
  LET kind == Sub(r, 1) % 8
      m == NumEdges(d)
      one == 1 + (Sub(r, 2) % (m[1] + m[2]))
      v(c, i) == IF kind = 1 THEN IF i + (IF c = 1 THEN 0 ELSE m[1]) = one THEN R(1) ELSE R(0) ELSE Val(Sub(r, 2 + c), kind, i)
  IN << Tab(m[1], LAMBDA i : v(1, i)), Tab(m[2], LAMBDA i : v(2, i)) >>
PotentialField(r, d) ==
  LET phi == Tab(d[1] * d[2], LAMBDA i : Dyadic(Sub(r, i), 10) ** R(2))
      m == NumEdges(d) IN
  << Tab(m[1], LAMBDA e : phi[e + d[2]] -- phi[e]),
     Tab(m[2], LAMBDA e : LET i == (e-1) \div (d[2]-1)  j == (e-1) % (d[2]-1) IN phi[i * d[2] + j + 2] -- phi[i * d[2] + j + 1]) >>
\* one size for all the fields of a behaviour, a power of two
FieldSize == Among(Sub(Key(k), 77), << R(1), R(1), R(1), R(1), RFrac(1, 1073741824) ** RFrac(1, 1048576), R(1073741824) ** R(1048576), RFrac(1, 4096) >>)
FieldFor(r, s) == LET f == IF s.kind # "none" \/ Chance(Sub(r, 1), 20) THEN PotentialField(Sub(r, 2), s.n) ELSE FreeField(Sub(r, 2), s.n) IN
  << Tab(Len(f[1]), LAMBDA i : FieldSize ** f[1][i]), Tab(Len(f[2]), LAMBDA i : FieldSize ** f[2][i]) >>
Hexes(f) == Tab(Len(f), LAMBDA i : RHex(f[i]))
Scale2(a, f, b, g) == Tab(Len(f), LAMBDA i : (a ** f[i]) ++ (b ** g[i]))
Combined(a, f, b, g) == << Scale2(a, f[1], b, g[1]), Scale2(a, f[2], b, g[2]) >>
Inits(r, m) == Tab(m, LAMBDA i : Among(Sub(r, i), << "nan", "inf", "-0x1.8p+900", "0x1p+800" >>))
Call(op, o) == [op |-> op, o |-> o]
ApplyCall(r, o, f, nseg) == [op |-> "flow.apply", o |-> o, f0 |-> Hexes(f[1]), f1 |-> Hexes(f[2]), init |-> Inits(r, nseg)]

\* ------------------------------------------------------------------- exact --
ExactScript(r) ==
  LET s == Shape(Sub(r, 1))
      \* now and then a polyline of very many corners
      num(i) == IF i = 2 /\ Chance(Sub(r, 2), 6) THEN Among(Sub(r, 20 + i), << 34, 65, 66, 67, 100, 131, 259, 301 >>) ELSE Range(Sub(r, 20 + i), 2, 6)
      lines == IF VastOne THEN 1 ELSE 3
      run(i) == << [op |-> "flow.dst", o |-> 1, g |-> 10 + i], Call("flow.compute", 1) >>
                \o Concat(Tab(IF VastOne THEN 1 ELSE 2, LAMBDA a : << ApplyCall(Sub(r, 40 + 3*i + a), 1, FieldFor(Sub(r, 60 + 3*i + a), s), num(i) - 1) >>))
  IN << SrcGrid(1, s) >> \o Tab(lines, LAMBDA i : LineOf(10 + i, s, Corners(Sub(r, 30 + i), s, num(i))))
     \o << Call("flow.new", 1), [op |-> "flow.src", o |-> 1, g |-> 1] >> \o Concat(Tab(lines, run)) \o << Call("flow.del", 1) >>

\* ----------------------------------------------------------------- history --
\* source grids 1, 2; for each of them polylines: itself, split, reversed
NSrc == 2
ShapeOf(i) == IF i = 2 /\ Chance(Sub(Key(k), 130), 70) THEN TwinShape(Sub(Key(k), 131), Shape(Sub(Key(k), 101))) ELSE Shape(Sub(Key(k), 100 + i))
CornersOf(i) == LET r == Sub(Key(k), 110 + i) IN Corners(r, ShapeOf(i), Range(Sub(r, 7), 2, 4))
\* splitting parameters of the segments
Cuts(i, e) == LET r == Sub(Key(k), 120 + 10*i + e) IN Among(r, << << >>, << RFrac(1,2) >>, << RFrac(1,4), RFrac(3,4) >>, << RFrac(3,8) >>, << RFrac(1,16), RFrac(1,2), RFrac(5,8) >> >>)
SplitOf(i) == LET c == CornersOf(i)
                  RECURSIVE go(_)
                  go(e) == IF e = Len(c) THEN << c[e] >>
                           ELSE << c[e] >> \o Tab(Len(Cuts(i, e)), LAMBDA q : Lerp(c[e], c[e+1], Cuts(i, e)[q])) \o go(e + 1)
              IN go(1)
FirstOf(i) == LET RECURSIVE go(_, _)
                  go(e, at) == IF e > Len(CornersOf(i)) THEN <<>> ELSE << at >> \o (IF e = Len(CornersOf(i)) THEN <<>> ELSE go(e + 1, at + 1 + Len(Cuts(i, e))))
              IN go(1, 1)
With(rec, more) == more @@ rec
Extra(rec, f, v) == (f :> v) @@ rec
LinesOf(i) == << LineOf(10*i + 1, ShapeOf(i), CornersOf(i)),
                 Extra(Extra(LineOf(10*i + 2, ShapeOf(i), SplitOf(i)), "split", 10*i + 1), "first", FirstOf(i)),
                 Extra(LineOf(10*i + 3, ShapeOf(i), Reverse(CornersOf(i))), "rev", 10*i + 1) >>
NumSeg(g) == LET i == g \div 10 IN IF g % 10 = 2 THEN Len(SplitOf(i)) - 1 ELSE Len(CornersOf(i)) - 1
\* fields 2 and 3 agree with field 1 in the first values, or the last ones
FixedField(i, j) ==
  LET f == FieldFor(Sub(Key(k), 201 + 10*i), ShapeOf(i))
      g == FieldFor(Sub(Key(k), 200 + 10*i + j), ShapeOf(i))
      mix(u, v, s) == Tab(Len(u), LAMBDA q : IF (j = 2) = (q <= (Len(u) + 1) \div 2) THEN u[q] ELSE v[q]) IN
  IF j \notin {2, 3} \/ ShapeOf(i).kind # "none" THEN g
  ELSE << mix(f[1], g[1], j), mix(f[2], g[2], j) >>
Init == /\ k \in From..From+Count-1 /\ n = 0 /\ obj = <<>> /\ done = FALSE
        /\ script = << [op |-> "start", id |-> k] >> \o
             (IF Mode = "exact" THEN <<>> ELSE Concat(Tab(NSrc, LAMBDA i : << SrcGrid(i, ShapeOf(i)) >> \o LinesOf(i))))
Add(c)    == script' = script \o c
Put(o, a) == obj' = (o :> a) @@ obj
\* three applications: two fields and a combination of them
Triple(r, o) ==
  LET i == obj[o].cs
      f == FixedField(i, 1 + (Sub(r, 1) % 3))
      g == FixedField(i, 4 + (Sub(r, 2) % 2))
      a == Among(Sub(r, 3), << << R(2), R(-3) >>, << R(1), R(1) >>, << RFrac(1, 2), R(5) >> >>)
      m == NumSeg(obj[o].cd)
  IN << ApplyCall(Sub(r, 4), o, f, m), ApplyCall(Sub(r, 5), o, g, m),
        Extra(ApplyCall(Sub(r, 6), o, Combined(a[1], f, a[2], g), m), "comb", << RStr(a[1]), RStr(a[2]) >>) >>
Walk(r, lastObj) ==
  LET o == Range(Sub(r, 1), 1, lastObj)
      c == Sub(r, 2) % 100
      i == IF Chance(Sub(r, 3), 75) THEN 1 ELSE 2
      g == 10 * i + Range(Sub(r, 4), 1, 3)
  IN IF o \notin DOMAIN obj THEN Put(o, NewFlow) /\ Add(<< Call("flow.new", o) >>)
     ELSE CASE c < 15 -> Put(o, FSetSrc(obj[o], i)) /\ Add(<< [op |-> "flow.src", o |-> o, g |-> i] >>)
            [] c >= 15 /\ c < 40 -> Put(o, FSetDst(obj[o], g)) /\ Add(<< [op |-> "flow.dst", o |-> o, g |-> g] >>)
            [] c >= 40 /\ c < 65 -> IF FCan(obj[o]) THEN Put(o, FCompute(obj[o])) /\ Add(<< Call("flow.compute", o) >>) ELSE UNCHANGED << obj, script >>
            [] c >= 65 /\ c < 85 -> IF FCanApply(obj[o]) THEN UNCHANGED obj /\ Add(<< ApplyCall(Sub(r, 6), o, FixedField(obj[o].cs, 1 + (Sub(r, 7) % 3)), NumSeg(obj[o].cd)) >>) ELSE UNCHANGED << obj, script >>
            [] c >= 85 /\ c < 96 -> IF FCanApply(obj[o]) THEN UNCHANGED obj /\ Add(Triple(Sub(r, 6), o)) ELSE UNCHANGED << obj, script >>
            [] c = 96 -> IF FCanApply(obj[o]) THEN UNCHANGED obj /\ Add(<< Call("flow.debug", o) >>) ELSE UNCHANGED << obj, script >>
            [] c >= 97 -> obj' = [q \in DOMAIN obj \ {o} |-> obj[q]] /\ Add(<< Call("flow.del", o) >>)
\* the same field on every polyline of a grid, by a reused and by a new object
Final(i) ==
  LET r == Sub(Key(k), 300 + i)
      o == 50 + i
      one(ob, j) == << [op |-> "flow.dst", o |-> ob, g |-> 10*i + j], Call("flow.compute", ob),
                       ApplyCall(Sub(r, j), ob, FixedField(i, 1), NumSeg(10*i + j)), ApplyCall(Sub(r, 5 + j), ob, FixedField(i, 4), NumSeg(10*i + j)) >>
  IN << Call("flow.new", o), [op |-> "flow.src", o |-> o, g |-> i] >> \o Concat(Tab(3, LAMBDA j : one(o, j))) \o
     << Call("flow.new", o + 10), [op |-> "flow.src", o |-> o + 10, g |-> i] >> \o one(o + 10, 1) \o << Call("flow.del", o + 10), Call("flow.del", o) >>
Length == IF Mode = "exact" THEN 1 ELSE 40
Next == /\ ~done /\ k' = k
        /\ \/ n < Length /\ n' = n + 1 /\ UNCHANGED done
              /\ IF Mode = "exact" THEN UNCHANGED obj /\ Add(ExactScript(Key(k))) ELSE Walk(Sub(Key(k), 1000 + n), 1 + (Key(k) % 3))
           \/ n = Length /\ done' = TRUE /\ n' = n /\ UNCHANGED obj
              /\ script' = script \o (IF Mode = "exact" THEN <<>> ELSE Concat(Tab(NSrc, Final)))
              /\ Emit(script')
=============================================================================
