------------------------------- MODULE FindGen ------------------------------
(* Behaviours of the point search.                                           *)
EXTENDS Find, GridGen
CONSTANT Mode           \* "steps", "converge" or "history"
VARIABLES k, n, obj, script, done

M1 == << << <<R(1)>> >>, << <<R(-1)>> >>, << <<RFrac(3,4)>> >>, << <<RFrac(-7,3)>> >> >>
M3 == << << <<R(1), R(0), R(0)>>, <<R(0), R(1), R(0)>>, <<R(0), R(0), R(1)>> >>,
         << <<R(1), R(0), R(0)>>, <<R(0), R(1), R(0)>>, <<R(0), R(0), R(1)>> >>,
         << <<R(1), RFrac(1,4), R(0)>>, <<R(0), R(1), RFrac(-1,4)>>, <<RFrac(1,2), R(0), R(1)>> >>,
         << <<R(0), R(0), R(1)>>, <<R(1), R(0), R(0)>>, <<R(0), R(1), R(0)>> >>,
         << <<R(-1), R(0), R(0)>>, <<R(0), R(2), R(0)>>, <<R(0), R(0), RFrac(1,2)>> >>,
         << <<RFrac(4,5), RFrac(-3,5), R(0)>>, <<RFrac(3,5), RFrac(4,5), R(0)>>, <<R(0), R(0), R(-1)>> >> >>
M4 == << [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN R(1) ELSE R(0)]],
         << <<R(0), R(0), R(0), R(1)>>, <<R(1), R(0), R(0), R(0)>>, <<R(0), R(-1), R(0), R(0)>>, <<R(0), R(0), R(2), R(0)>> >>,
         << <<R(1), RFrac(1,4), R(0), R(0)>>, <<R(0), R(1), R(0), RFrac(-1,4)>>, <<RFrac(1,2), R(0), R(1), R(0)>>, <<R(0), R(0), RFrac(1,4), RFrac(3,2)>> >> >>
MapOf(r, d) == CASE d = 1 -> Among(r, M1) [] d = 2 -> LET m == Among(r, Linear) IN << << m[1], m[2] >>, << m[3], m[4] >> >> [] d = 3 -> Among(r, M3) [] d = 4 -> Among(r, M4)
Apply(m, p) == TLCEval([i \in 1..Len(m) |-> RSum([j \in 1..Len(p) |-> m[i][j] ** p[j]])])
LargeDims(r, d) == CASE d = 1 -> << Among(r, << 33, 66, 130, 257, 300 >>) >> [] d = 2 -> Among(r, << << 40, 7 >>, << 2, 130 >>, << 260, 2 >>, << 17, 18 >> >>) [] d = 3 -> Among(r, << << 9, 8, 7 >>, << 2, 2, 66 >>, << 34, 3, 2 >>, << 2, 65, 2 >> >>) [] d = 4 -> Among(r, << << 3, 2, 2, 12 >>, << 17, 2, 2, 2 >>, << 2, 6, 2, 5 >> >>)
SmallDims(r, d) == CASE d = 1 -> << Range(r, 2, 9) >>
                  [] d = 2 -> << Among(Sub(r, 1), Sizes), Among(Sub(r, 2), Sizes) >>
                  [] d = 3 -> << Range(Sub(r, 1), 2, 4), Range(Sub(r, 2), 2, 4), Range(Sub(r, 3), 2, 3) >>
                  [] d = 4 -> << Range(Sub(r, 1), 2, 3), Range(Sub(r, 2), 2, 3), Range(Sub(r, 3), 2, 3), Range(Sub(r, 4), 2, 3) >>
DimsOf(r, d) == IF Chance(Sub(r, 9), 3) THEN LargeDims(Sub(r, 8), d) ELSE SmallDims(r, d)
\* index set of node number q (from 0)
IndexOf(nn, q) == [i \in 1..Len(nn) |-> (q \div Prod(nn, i + 1)) % nn[i]]
DisplaceN(r, d, kind, amp) == [i \in 1..d |-> CASE kind = "none" -> R(0) [] kind = "lattice" -> R(Range(Sub(r, i), -1, 1)) ** amp
                                               [] kind = "dyadic" -> Dyadic(Sub(r, i), 4) ** amp [] kind = "generic" -> Generic(Sub(r, i)) ** amp]
\* coordinates (component, node), rounded
CoordsOf(s) ==
  LET d == Len(s.n)
      p == Tab(Prod(s.n, 1), LAMBDA q :
             LET ix == IndexOf(s.n, q - 1)
                 dd == DisplaceN(Sub(s.seed, q), d, IF s.keep /\ q \in {1, Prod(s.n, 1)} THEN "none" ELSE s.kind, s.amp)
                 v == Apply(s.m, [i \in 1..d |-> (R(ix[i]) -- RFrac(s.n[i] - 1, 2)) ++ dd[i]]) IN
             TLCEval([i \in 1..d |-> RRound((v[i] ++ s.off[i]) ** s.sc)]))
  IN TLCEval([i \in 1..d |-> TLCEval([q \in 1..Len(p) |-> p[q][i]])])
\* an annulus (d = 2): radius along one index, angle along the other (full turn, first and last coincide)
AnnulusOf(s) ==
  LET a == 3 - s.ang                                \* the radial index
      pos(q) == LET ix == IndexOf(s.n, q - 1)
                    rho == s.r0 ++ ((s.r1 -- s.r0) ** RFrac(ix[a], s.n[a] - 1))
                    th == ((R(2) ** RPi) ** RFrac((IF s.flip THEN -ix[s.ang] ELSE ix[s.ang]) % (s.n[s.ang] - 1), s.n[s.ang] - 1)) ++ s.th0 IN
                << RRound((s.off[1] ++ (rho ** RCos(th)))), RRound((s.off[2] ++ (rho ** RSin(th)))) >>
      p == Tab(Prod(s.n, 1), pos)
  IN << TLCEval([q \in 1..Len(p) |-> p[q][1]]), TLCEval([q \in 1..Len(p) |-> p[q][2]]) >>
Shape(r, kinds, amps, dmax) == TLCEval(
  LET d == Among(Sub(r, 1), IF dmax = 4 THEN << 1, 2, 2, 2, 3, 3, 4 >> ELSE IF dmax = 3 THEN << 1, 2, 2, 2, 3, 3 >> ELSE << 2 >>) IN
  [ n |-> DimsOf(Sub(r, 2), d), m |-> MapOf(Sub(r, 3), d), off |-> [i \in 1..d |-> Among(Sub(r, 4 + i), << R(0), R(0), R(1), RFrac(1,3), RFrac(-5,2), RFrac(-5,2), R(Range(Sub(r, 14), -4000, 4000)) >>)],
    sc |-> Among(Sub(r, 8), << R(1), R(1), R(1), RFrac(1, 4), R(8) >>), kind |-> Among(Sub(r, 9), kinds), amp |-> Among(Sub(r, 10), amps), seed |-> Sub(r, 11), keep |-> Chance(Sub(r, 12), 50), ann |-> FALSE ])
Annulus(r) == TLCEval(
  LET ang == 1 + (Sub(r, 1) % 2)  nt == IF Chance(Sub(r, 10), 6) THEN Among(Sub(r, 2), << 65, 66, 97, 129, 131 >>) ELSE Range(Sub(r, 2), 13, 33)  nr == Range(Sub(r, 3), 2, 6) IN
  [ n |-> IF ang = 2 THEN << nr, nt >> ELSE << nt, nr >>, ang |-> ang, r0 |-> RFrac(Range(Sub(r, 4), 4, 8), 4), r1 |-> RFrac(Range(Sub(r, 4), 4, 8) + Range(Sub(r, 5), 2, 8), 4),
    th0 |-> R(Range(Sub(r, 6), 0, 6)), flip |-> Chance(Sub(r, 7), 50), off |-> << R(Range(Sub(r, 8), -1, 1)), R(Range(Sub(r, 9), -1, 1)) >>, ann |-> TRUE ])
Coords(s) == IF s.ann THEN AnnulusOf(s) ELSE CoordsOf(s)
NLineC(id, s, c) ==
  LET h(i) == Tab(Len(c[i]), LAMBDA q : RHex(c[i][q]))
      g1 == [op |-> "grid", id |-> id, n |-> s.n, x |-> h(1)] IN
  IF Len(c) = 4 THEN ("y" :> h(2)) @@ ("z" :> h(3)) @@ ("w" :> h(4)) @@ g1 ELSE IF Len(c) = 1 THEN g1 ELSE IF Len(c) = 2 THEN ("y" :> h(2)) @@ g1 ELSE ("y" :> h(2)) @@ ("z" :> h(3)) @@ g1
NLine(id, s) == NLineC(id, s, Coords(s))
\* an index position in the grid
RandIdx(r, nn) == TLCEval([i \in 1..Len(nn) |->
   LET c == Sub(r, i)  top == nn[i] - 1  v == Sub(r, 10 + i) IN
   CASE c % 6 = 0 -> R(v % nn[i])
     [] c % 6 = 1 -> RFrac(v % (2 * top + 1), 2)
     [] c % 6 = 2 -> Among(v, << R(0), R(top) >>)
     [] OTHER -> R(top) ** RFrac(Range(v, 0, 1000000), 1000000)])
Hx(x) == TLCEval([i \in 1..Len(x) |-> RHex(RRound(x[i]))])
Tols == << "0x1p-27", "0x1p-27", "0x1p-20", "0x1p-33", "0x1p-10" >>
Call(op, o) == [op |-> op, o |-> o]
New(o, nit, tol) == [op |-> "find.new", o |-> o, nit |-> nit, tol |-> tol]
GridCall(o, g, per) == [op |-> "find.grid", o |-> o, g |-> g, per |-> per]
ResetCall(o, x, t) == [op |-> "find.reset", o |-> o, idx |-> Hx(x), tgt |-> Hx(t)]
NextCall(o, nd) == [op |-> "find.next", o |-> o, nd |-> nd]
LookCall(o, nd) == [op |-> "find.look", o |-> o, nd |-> nd]
\* a start a little outside the indices of the grid
Outside(r, nn) == LET x == RandIdx(Sub(r, 1), nn)  j == 1 + (Sub(r, 2) % Len(nn))  by == RFrac(Range(Sub(r, 3), 1, 400), 1000) IN
                  [x EXCEPT ![j] = IF Sub(r, 4) % 2 = 0 THEN RNeg(by) ELSE R(nn[j] - 1) ++ by]
RunCall(o, nd, max) == [op |-> "find.run", o |-> o, nd |-> nd, max |-> max]
Zeros(d) == [i \in 1..d |-> 0]
RandPer(r, d) == [i \in 1..d |-> Among(Sub(r, i), << 0, 0, 1 >>)]
PG(s) == [n |-> s.n, c |-> Coords(s)]
BoxG(s) == BoxOf(Coords(s))
Point(r, s, tol) ==   \* a target: inside, on the box, near the box, anywhere
  LET d == Len(s.n)
      p == PosAt(PG(s), RandIdx(Sub(r, 1), s.n))
      b == BoxG(s)
      kind == Sub(r, 2) % 10
      j == 1 + (Sub(r, 3) % d)
      hi == Sub(r, 4) % 2
      side(f) == [p EXCEPT ![j] = IF hi = 0 THEN b[j][1] -- (f ** R(tol)) ELSE b[j][2] ++ (f ** R(tol))] IN
  CASE kind < 4 -> p
    [] kind = 4 -> side(R(0))
    [] kind = 5 -> side(RFrac(Range(Sub(r, 5), 1, 9), 10))
    [] kind = 6 -> side(RFrac(Range(Sub(r, 5), 11, 30), 10))
    [] kind = 7 -> [i \in 1..d |-> b[i][1] ++ ((b[i][2] -- b[i][1]) ** RFrac(Range(Sub(r, 10 + i), 0, 64), 64))]
    [] kind = 8 -> [i \in 1..d |-> b[i][1] ++ ((b[i][2] -- b[i][1]) ** RFrac(Range(Sub(r, 10 + i), -32, 96), 64))]
    [] kind = 9 -> side(R(Range(Sub(r, 5), 100, 1000000)))

\* ------------------------------------------------------------------- steps --
StepShape(r) == IF Chance(Sub(r, 1), 12) THEN [Annulus(Sub(r, 2)) EXCEPT !.r0 = RFrac(Sub(r, 3) % 3, 4)]
                ELSE Shape(Sub(r, 2), << "none", "lattice", "dyadic", "generic", "generic" >>, << RFrac(1, 8), RFrac(1, 4), RFrac(1, 2), R(1), R(2) >>, 4)
StepsScript(r) ==
  LET long == Chance(Sub(r, 3), 12)
      nit == IF long THEN Among(Sub(r, 1), << 65, 101, 130, 256, 300 >>) ELSE Among(Sub(r, 1), << 1, 2, 3, 4, 5, 8, 20, 50 >>)
      \* too small to be reached: the error settles above it, and the search goes on until it has used up its iterations
      tol == IF long /\ Chance(Sub(r, 4), 70) THEN "0x1p-70" ELSE Among(Sub(r, 2), Tols)
      runMax == IF long THEN 310 ELSE 80
      s(i) == IF long THEN Shape(Sub(r, 10 + i), << "lattice", "dyadic", "generic" >>, << RFrac(1, 8), RFrac(1, 4), R(1) >>, 3) ELSE StepShape(Sub(r, 10 + i))
      search(i, j) ==
        LET q == Sub(Sub(r, 20 + i), j)
            d == Len(s(i).n)
            start == IF Chance(Sub(q, 6), 8) THEN Outside(Sub(q, 7), s(i).n) ELSE RandIdx(Sub(q, 1), s(i).n)
            look(z) == IF Chance(Sub(q, 30 + z), 30) THEN << LookCall(1, d) >> ELSE <<>>
        IN
        << ResetCall(1, start, Point(Sub(q, 2), s(i), tol)) >> \o look(0) \o
        (IF Chance(Sub(q, 3), 60) THEN Concat(Tab(Range(Sub(q, 4), 1, 6), LAMBDA z : << NextCall(1, d) >> \o look(z))) \o (IF Chance(Sub(q, 5), 60) THEN << RunCall(1, d, runMax) >> ELSE <<>>)
         ELSE << RunCall(1, d, runMax) >>) \o look(9)
      grid(i) == << NLine(i, s(i)), GridCall(1, i, IF s(i).ann THEN [z \in 1..2 |-> IF z = s(i).ang THEN 1 ELSE 0] ELSE IF Chance(Sub(r, 30 + i), 80) THEN Zeros(Len(s(i).n)) ELSE RandPer(Sub(r, 40 + i), Len(s(i).n))) >>
                 \o Concat(Tab(6, LAMBDA j : search(i, j)))
  IN << New(1, nit, tol) >> \o grid(1) \o grid(2) \o << Call("find.del", 1) >>

\* ---------------------------------------------------------------- converge --
\* more nodes than can be counted with two bytes
VastDims(r, d) == CASE d = 1 -> << 65540 + (r % 3000) >> [] d = 2 -> Among(r, << << 2, 33000 >>, << 33000, 2 >>, << 257, 256 >>, << 300, 230 >> >>) [] d = 3 -> Among(r, << << 41, 40, 41 >>, << 2, 2, 16500 >>, << 16500, 2, 2 >> >>)
Vast(r, s) == [s EXCEPT !.n = VastDims(r, Len(@))]
MildShape(r) == Shape(r, << "none", "none", "lattice", "dyadic", "generic", "generic" >>, << RFrac(1, 16), RFrac(1, 8), RFrac(1, 8) >>, 3)
ConvergeScript(r) ==
  LET s == IF k % 53 = 17 THEN Vast(Sub(r, 4), MildShape(Sub(r, 1))) ELSE MildShape(Sub(r, 1))
      d == Len(s.n)
      pg == TLCEval(PG(s))
      search(j) ==
        LET q == Sub(r, 20 + j)
            at == RandIdx(Sub(q, 2), s.n)
            t == PosAt(pg, at) IN
        << [op |-> "find.reset", o |-> 1, idx |-> Hx(RandIdx(Sub(q, 1), s.n)), tgt |-> Hx(t), at |-> [i \in 1..d |-> RStr(at[i])], cond |-> IF s.kind = "none" THEN "affine" ELSE "mild"], RunCall(1, d, 400) >>
  IN << New(1, 300, Among(Sub(r, 3), << "0x1p-27", "0x1p-27", "0x1p-20", "0x1p-33" >>)), NLineC(1, s, pg.c), GridCall(1, 1, Zeros(d)) >>
     \o Concat(Tab(12, search)) \o << Call("find.del", 1) >>

\* ----------------------------------------------------------------- history --
\* grids 2 and 5 may be twins of 1 and 3
HShape(i) ==
  LET r == Sub(Key(k), 100 + i)
      one == Annulus(Sub(Key(k), 101))
      three == MildShape(Sub(Key(k), 103)) IN
  CASE i = 2 /\ r % 4 = 0 -> [one EXCEPT !.flip = ~@]
    [] i = 2 /\ r % 4 = 1 -> [one EXCEPT !.r1 = @ -- RFrac(1, 4)]
    [] i = 2 /\ r % 4 = 2 -> [one EXCEPT !.n = << @[2], @[1] >>, !.ang = 3 - @]
    [] i <= 2 -> Annulus(r)
    [] i = 3 -> three
    [] i = 5 /\ r % 4 = 0 -> [three EXCEPT !.seed = Sub(r, 1), !.kind = "generic", !.keep = TRUE]
    [] i = 5 /\ r % 4 = 1 -> [three EXCEPT !.m = MapOf(Sub(r, 2), Len(three.n))]
    [] i = 5 /\ r % 4 = 2 -> [three EXCEPT !.sc = @ ** RFrac(3, 2)]
    [] OTHER -> StepShape(r)
PerOf(i) == IF HShape(i).ann THEN [z \in 1..2 |-> IF z = HShape(i).ang THEN 1 ELSE 0] ELSE IF i = 4 THEN RandPer(Sub(Key(k), 150 + i), Len(HShape(i).n)) ELSE Zeros(Len(HShape(i).n))
NG == 5
HNit == Among(Sub(Key(k), 50), << 100, 100, 100, 7, 3 >>)
HTol == Among(Sub(Key(k), 51), Tols)
\* the searches of grid i: start and target are fixed, so that they are repeated on other objects
SearchOf(i, j) ==
  LET q == Sub(Sub(Key(k), 200 + i), j)
      s == HShape(i)
      x == RandIdx(Sub(q, 1), s.n)
      at == LET v == RandIdx(Sub(q, 2), s.n) IN IF s.ann /\ Chance(Sub(q, 3), 40) THEN [v EXCEPT ![s.ang] = Among(Sub(q, 4), << R(0), RFrac(1, 3), R(s.n[s.ang] - 1) -- RFrac(1, 4), R(s.n[s.ang] - 1), RFrac(1, 1000) >>)] ELSE v
      t == PosAt(PG(s), at)
      \* starts up to a cell and a half away, on either side of the cut, or (wild) anywhere
      wild == i > 2 \/ Chance(Sub(q, 5), 20)
      m == R(s.n[s.ang] - 1)
      y0 == at[s.ang] ++ RFrac(Range(Sub(q, 6), -1500, 1500), 1000)
      y1 == IF RLt(y0, R(0)) THEN y0 ++ m ELSE IF RLt(m, y0) THEN y0 -- m ELSE y0
      ra == 3 - s.ang
      y2 == RMin(R(s.n[ra] - 1), RMax(R(0), at[ra] ++ RFrac(Range(Sub(q, 7), -1000, 1000), 1000))) IN
  IF s.ann THEN [op |-> "find.reset", o |-> 0, idx |-> Hx(IF wild THEN x ELSE [z \in 1..2 |-> IF z = s.ang THEN y1 ELSE y2]), tgt |-> Hx(t), at |-> [z \in 1..2 |-> RStr(at[z])], cond |-> IF wild THEN "wild" ELSE "annulus"]
  ELSE [op |-> "find.reset", o |-> 0, idx |-> Hx(x), tgt |-> Hx(Point(q, s, HTol))]
Init == /\ k \in From..From+Count-1 /\ n = 0 /\ obj = <<>> /\ done = FALSE
        /\ script = << [op |-> "start", id |-> k] >> \o (IF Mode = "history" THEN Tab(NG, LAMBDA i : NLine(i, HShape(i))) ELSE <<>>)
Add(c)    == script' = script \o c
Put(o, a) == obj' = (o :> a) @@ obj           \* here: the grid the object holds
Walk(r, lastObj) ==
  LET o == Range(Sub(r, 1), 1, lastObj)
      c == Sub(r, 2) % 100
      i == Range(Sub(r, 3), 1, NG)
      j == Range(Sub(r, 4), 1, 4)
  IN IF o \notin DOMAIN obj THEN Put(o, 0) /\ Add(<< New(o, HNit, HTol) >>)
     ELSE IF obj[o] = 0 \/ c < 30 THEN Put(o, i) /\ Add(<< GridCall(o, i, PerOf(i)) >>)
     ELSE LET d == Len(HShape(obj[o]).n)
              rs == [SearchOf(obj[o], j) EXCEPT !.o = o] IN
          CASE c >= 30 /\ c < 70 -> UNCHANGED obj /\ Add(<< rs, RunCall(o, d, 200) >> \o (IF c % 3 = 0 THEN << LookCall(o, d) >> ELSE <<>>))
            [] c >= 70 /\ c < 85 -> UNCHANGED obj /\ Add(<< rs, NextCall(o, d), NextCall(o, d) >>)          \* abandoned
            [] c >= 85 /\ c < 95 -> UNCHANGED obj /\ Add(<< rs, LookCall(o, d), NextCall(o, d), LookCall(o, d), RunCall(o, d, 200) >>)
            [] c >= 95 -> obj' = [q \in DOMAIN obj \ {o} |-> obj[q]] /\ Add(<< Call("find.del", o) >>)
\* every search on a fresh object
Fresh == Concat(Tab(NG, LAMBDA i : << New(100 + i, HNit, HTol), GridCall(100 + i, i, PerOf(i)) >> \o
            Concat(Tab(4, LAMBDA j : << [SearchOf(i, j) EXCEPT !.o = 100 + i], RunCall(100 + i, Len(HShape(i).n), 200) >>)) \o << Call("find.del", 100 + i) >>))
Length == IF Mode = "history" THEN 30 ELSE 1
Next == /\ ~done /\ k' = k
        /\ \/ n < Length /\ n' = n + 1 /\ UNCHANGED done
              /\ CASE Mode = "steps" -> UNCHANGED obj /\ Add(StepsScript(Key(k)))
                   [] Mode = "converge" -> UNCHANGED obj /\ Add(ConvergeScript(Key(k)))
                   [] Mode = "history" -> Walk(Sub(Key(k), 1000 + n), 1 + (Key(k) % 3))
           \/ n = Length /\ done' = TRUE /\ n' = n /\ UNCHANGED obj
              /\ script' = script \o (IF Mode = "history" THEN Fresh ELSE <<>>)
              /\ Emit(script')
=============================================================================
