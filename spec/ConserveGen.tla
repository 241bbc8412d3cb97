---------------------------- MODULE ConserveGen ----------------------------
(* Behaviours of the conservative regridder to be replayed on the code: the  *)
(* commands are those enabled in the specification's state, the data are     *)
(* drawn at random.                                                          *)
EXTENDS Conserve, GridGen
CONSTANT Mode            \* "weights", "apply", "iterate" or "history"
VARIABLES k,             \* number of the behaviour
          n,             \* steps so far
          obj,           \* object name -> abstract object
          script,        \* the calls so far
          past,          \* the pairs of grids whose weights were asked for
          done
vars == << k, n, obj, script, past, done >>

Objs     == 1..3
NumGrids == IF Mode = "history" THEN 5 ELSE 2
Scales   == << R(1), R(1), R(1), R(1), RFrac(1, 1024), R(1024), RFrac(1, 10), R(37) >>
Centers  == << <<R(0), R(0)>>, <<R(0), R(0)>>, <<R(0), R(0)>>, <<R(100), R(-50)>>, <<R(1000), R(3)>>, <<RFrac(22, 7), RFrac(-13, 11)>> >>
Plus(c, d) == << c[1] ++ d[1], c[2] ++ d[2] >>

\* the grids of behaviour b: a pair related in one of many ways, or unrelated ones
GridsOf(b) ==
  LET r  == Key(b)
      sc == Among(Sub(r, 1), Scales)
      ce == Among(Sub(r, 2), Centers)
      kind == Sub(r, 3) % 100
      rel == Sub(r, 4) % 100
      free(id) == RandomGrid(Sub(r, 10 + id), id, sc, ce, 3)
      one(id, nn, m, s, off, disp, amp) == GridLine(id, nn, Nodes(Sub(r, 20 + id), nn, m, s, off, disp, amp))
      covering(id) ==  \* a grid that extends far beyond the other ones
        LET nn == << Range(Sub(r, 30), 2, 4), Range(Sub(r, 31), 2, 4) >>
            m  == Among(Sub(r, 32), Linear)
            f  == R(Range(Sub(r, 33), 8, 16)) IN
        one(id, nn, m, sc ** f, << ce[1] // f, ce[2] // f >>, Among(Sub(r, 34), Displacements), RFrac(1, 16))
      fine(id) ==      \* a lattice finer than the other one, or the same
        one(id, << Range(Sub(r, 35), 2, 6), Range(Sub(r, 36), 2, 6) >>, Among(Sub(r, 3), Linear), sc ** Among(Sub(r, 37), << RFrac(1,2), RFrac(1,4), R(1), RFrac(1,3), RFrac(1, 16) >>),
            << Among(Sub(r, 38), << R(0), RFrac(1,2), R(1) >>) ++ ce[1], Among(Sub(r, 39), << R(0), RFrac(1,2) >>) ++ ce[2] >>, "none", R(0))
      far(id) == one(id, <<3, 2>>, Linear[1], sc, Plus(ce, << R(20), R(20) >>), "none", R(0))
      big(id) == BigGrid(Sub(r, 50 + id), id, << Range(Sub(r, 52 + id), 7, 13), Range(Sub(r, 55 + id), 7, 13) >>, Among(Sub(r, 57 + id), Linear), sc, ce)
      inside(id) ==   \* a few small cells somewhere in the middle of a huge grid
        one(id, << Range(Sub(r, 80), 2, 6), Range(Sub(r, 81), 2, 10) >>, Among(Sub(r, 82), Linear), sc ** RFrac(2, 5), << ce[1] ** RFrac(5, 2), ce[2] ** RFrac(5, 2) >>, Among(Sub(r, 83), Displacements), RFrac(1, 16))
      huge(id) == BigGrid(Sub(r, 60 + id), id, << Range(Sub(r, 62 + id), 16, 21), Range(Sub(r, 65 + id), 16, 21) >>, Linear[1], sc, ce)
      \* a strip of very many cells, and a grid along it
      strip == << 2, Range(Sub(r, 84), 130, 320) >>
      stripMap == Among(Sub(r, 85), Linear)
      turn(nn) == IF Chance(Sub(r, 86), 50) THEN nn ELSE << nn[2], nn[1] >>
      lengthy(id) == BigGrid(Sub(r, 87), id, turn(strip), stripMap, sc, ce)
      along(id) ==
        LET nn == << 2, Range(Sub(r, 88), 2, 30) >>
            f == RFrac(strip[2] - 1, nn[2] - 1) ** Among(Sub(r, 89), << R(1), R(1), RFrac(1, 3), RFrac(21, 20), RFrac(9, 10) >>)
            h == Among(Sub(r, 90), << R(1), R(1), R(2), RFrac(1, 2) >>)
            m == IF turn(nn) = nn THEN << stripMap[1] ** h, stripMap[2] ** f, stripMap[3] ** h, stripMap[4] ** f >> ELSE << stripMap[1] ** f, stripMap[2] ** h, stripMap[3] ** f, stripMap[4] ** h >> IN
        one(id, turn(nn), m, sc, << ce[1] ++ RFrac(Sub(r, 91) % 3, 4), ce[2] ++ RFrac(Sub(r, 92) % 2, 8) >>, "none", R(0))
      \* more than a thousand cells on one side, a few on the other
      vastDims == Among(Sub(r, 94), << << 34, 34 >>, << 35, 33 >>, << 12, 101 >>, << 101, 12 >>, << 5, 270 >>, << 530, 3 >> >>)
      vast(id) == BigGrid(Sub(r, 95), id, vastDims, Linear[1 + (Sub(r, 96) % Len(Linear))], sc, ce)
      over(id) ==
        LET nn == << Range(Sub(r, 97), 2, 4), Range(Sub(r, 98), 2, 4) >>
            f == RFrac((IF vastDims[1] < vastDims[2] THEN vastDims[2] ELSE vastDims[1]) * Range(Sub(r, 99), 10, 40), 32) IN
        one(id, nn, Among(Sub(r, 32), Linear), sc ** f, << ce[1] // f, ce[2] // f >>, Among(Sub(r, 34), Displacements), RFrac(1, 16))
      \* more cells than two bytes can count, and a grid of a few cells somewhere in it
      hostDims == Among(Sub(r, 100), << << 257, 258 >>, << 2, 66000 >>, << 300, 230 >>, << 33000, 3 >> >>)
      hostMap == Linear[1 + (Sub(r, 101) % Len(Linear))]
      host(id) == GridLine(id, hostDims, Nodes(Sub(r, 102), hostDims, hostMap, sc, << R(0), R(0) >>, Among(Sub(r, 103), << "none", "dyadic" >>), RFrac(2, 16)))
      guest(id) ==
        LET nn == << Range(Sub(r, 104), 2, 4), Range(Sub(r, 105), 2, 4) >>
            \* mostly near the last cells
            u == << R(hostDims[1] - 1) ** RFrac(Range(Sub(r, 106), 48, 64), 64), R(hostDims[2] - 1) ** RFrac(Range(Sub(r, 107), 40, 64), 64) >>
            at == MapPt(hostMap, << u[1] -- RFrac(hostDims[1] - 1, 2), u[2] -- RFrac(hostDims[2] - 1, 2) >>)
            f == RFrac(Range(Sub(r, 108), 24, 160), 64) IN
        one(id, nn, Among(Sub(r, 109), Linear), sc ** f, << at[1] // f, at[2] // f >>, "none", R(0))
      twin(id, i) == Twin(Sub(r, 70 + id), id, free(i))
  IN IF NumGrids > 2 THEN [i \in 1..NumGrids |-> IF i = 2 /\ Chance(Sub(r,8), 75) THEN twin(2, 1) ELSE IF i = 3 /\ Chance(Sub(r,9), 50) THEN twin(3, 1) ELSE IF i = 4 /\ Chance(Sub(r,5), 40) THEN covering(i)
                                                   ELSE IF i = 5 /\ Chance(Sub(r,6), 40) THEN far(i) ELSE free(i)]
     ELSE IF Mode = "weights" /\ b % 80 = 17 THEN << host(1), guest(2) >>
     ELSE IF Mode = "weights" /\ b % 80 = 57 THEN << guest(1), host(2) >>
     ELSE IF b % 40 = 7 THEN << over(1), vast(2) >>
     ELSE IF b % 40 = 27 THEN << vast(1), over(2) >>
     ELSE CASE kind < 28 -> << free(1), free(2) >>
            [] kind >= 28 /\ kind < 36 -> << free(1), twin(2, 1) >>
            [] kind >= 36 /\ kind < 40 -> << free(1), Slid(Sub(r, 72), 2, free(1)) >>
            [] kind >= 40 /\ kind < 50 -> << free(1), [free(1) EXCEPT !.id = 2] >>
            [] kind >= 50 /\ kind < 60 -> << free(1), covering(2) >>
            [] kind >= 60 /\ kind < 72 -> << covering(1), free(2) >>
            [] kind >= 72 /\ kind < 80 -> << fine(1), free(2) >>
            [] kind >= 80 /\ kind < 87 -> << free(1), fine(2) >>
            [] kind >= 87 /\ kind < 89 -> << free(1), far(2) >>
            [] kind >= 89 /\ kind < 96 -> << big(1), big(2) >>
            [] kind = 96 -> << IF Chance(Sub(r, 93), 50) THEN lengthy(1) ELSE huge(1), covering(2) >>
            [] kind = 97 -> << huge(1), inside(2) >>
            [] kind = 98 -> IF Chance(Sub(r, 93), 75) THEN << lengthy(1), along(2) >> ELSE << along(1), lengthy(2) >>
            [] kind = 99 -> << covering(1), IF Chance(Sub(r, 93), 50) THEN lengthy(2) ELSE huge(2) >>
DimOf(id) == LET e == script[id + 1] IN NumCells(e.n)

\* source fields and initial contents of the destination
Field(r, m) ==
  LET kind == Sub(r, 1) % 9
      s == Among(Sub(r, 2), << R(1), R(1), R(100), RFrac(1, 1000), R(-1), RFrac(1, 1073741824) ** RFrac(1, 1048576), R(1073741824) ** R(1048576) >>)
      val(i) == CASE kind = 0 -> R(3) ** s
                  [] kind = 1 -> IF i = 1 + (Sub(r, 3) % m) THEN s ELSE R(0)
                  [] kind = 2 -> R((i % 2) * 2 - 1) ** s
                  [] kind = 3 -> R(0)
                  [] kind = 4 -> R(i) ** s
                  [] kind = 5 -> (R(1000000) ++ R(i)) ** s
                  [] OTHER    -> Generic(Sub(r, 10 + i)) ** s
  IN Tab(m, LAMBDA i : RHex(RRound(val(i))))
Inits(r, m) == Tab(m, LAMBDA i : Among(Sub(r, i), << "0x0p+0", "0x1p+0", "nan", "inf", "-0x1.8p+900", "0x1.123p-3", "0x1.4p+20" >>))

Call(op, o)  == [op |-> op, o |-> o]
SrcOf(o)     == obj[o].cs
Ns(o)        == IF obj[o].cs = 0 THEN 4 ELSE DimOf(obj[o].cs)
Nd(o)        == IF obj[o].cd = 0 THEN 4 ELSE DimOf(obj[o].cd)
DumpCall(o)  == [op |-> "cons.dump", o |-> o, max |-> Ns(o) * Nd(o) + 20]
UnitCall(o)  == [op |-> "cons.unit", o |-> o, ns |-> Ns(o), nd |-> Nd(o)]
ApplyCall(r, o) == [op |-> "cons.apply", o |-> o, f |-> Field(Sub(r, 1), Ns(o)), init |-> Inits(Sub(r, 2), Nd(o))]
SrcCall(r, o, g) == [op |-> "cons.src", o |-> o, g |-> g, per |-> Periodic(r)]
DstCall(o, g) == [op |-> "cons.dst", o |-> o, g |-> g]

Init == /\ k \in From..From+Count-1
        /\ n = 0 /\ obj = <<>> /\ done = FALSE /\ past = {}
        /\ script = << [op |-> "start", id |-> k] >> \o GridsOf(k)

Add(c)      == script' = script \o c
Put(o, a)   == obj' = (o :> a) @@ obj

\* one random step of a history; what the abstract state does not enable is not done
Walk(r, lastObj) ==
  LET o == Range(Sub(r, 1), 1, lastObj)
      c == Sub(r, 2) % 100
      g == Range(Sub(r, 3), 1, NumGrids)
      can == o \in DOMAIN obj
  IN IF ~can THEN Put(o, NewObj) /\ Add(<< Call("cons.new", o) >>)
     ELSE CASE c < 22 -> Put(o, SetSrc(obj[o], g)) /\ Add(<< SrcCall(Sub(r, 4), o, g) >>)
            [] c >= 22 /\ c < 44 -> Put(o, SetDst(obj[o], g)) /\ Add(<< DstCall(o, g) >>)
            [] c >= 44 /\ c < 66 -> IF CanCompute(obj[o]) THEN Put(o, Compute(obj[o])) /\ Add(<< Call("cons.compute", o) >>) ELSE UNCHANGED << obj, script >>
            [] c >= 66 /\ c < 78 -> UNCHANGED obj /\ Add(<< DumpCall(o) >>)
            [] c >= 78 /\ c < 84 -> UNCHANGED obj /\ Add(<< Call(Among(Sub(r,5), <<"cons.get", "cons.get", "cons.reset", "cons.next">>), o) >>)
            [] c >= 84 /\ c < 95 -> IF obj[o].cs # 0 THEN UNCHANGED obj /\ Add(<< ApplyCall(Sub(r, 6), o) >>) ELSE UNCHANGED << obj, script >>
            [] c >= 95 /\ c < 97 -> IF obj[o].cs # 0 THEN UNCHANGED obj /\ Add(<< UnitCall(o) >>) ELSE UNCHANGED << obj, script >>
            [] c >= 97 -> obj' = [i \in DOMAIN obj \ {o} |-> obj[i]] /\ Add(<< Call("cons.del", o) >>)
\* iteration: get and next in any order, resets in the middle
Iterate(r, o) ==
  LET c == Sub(r, 2) % 100 IN
  CASE c < 40 -> UNCHANGED obj /\ Add(<< Call("cons.get", o), Call("cons.next", o) >>)
    [] c >= 40 /\ c < 55 -> UNCHANGED obj /\ Add(<< Call("cons.get", o) >>)
    [] c >= 55 /\ c < 70 -> UNCHANGED obj /\ Add(<< Call("cons.get", o), Call("cons.get", o), Call("cons.next", o) >>)
    [] c >= 70 /\ c < 74 -> UNCHANGED obj /\ Add(<< Call("cons.next", o) >>)
    [] c >= 74 /\ c < 80 -> UNCHANGED obj /\ Add(<< Call("cons.reset", o) >>)
    [] c >= 80 /\ c < 84 -> UNCHANGED obj /\ Add(<< DumpCall(o) >>)
    [] c >= 84 /\ c < 90 -> IF obj[o].cs # 0 THEN UNCHANGED obj /\ Add(<< UnitCall(o) >>) ELSE UNCHANGED << obj, script >>
    [] c >= 90 /\ c < 94 -> IF obj[o].cs # 0 THEN UNCHANGED obj /\ Add(<< ApplyCall(Sub(r, 6), o) >>) ELSE UNCHANGED << obj, script >>
    [] c >= 94 /\ c < 97 -> IF CanCompute(obj[o]) THEN Put(o, Compute(obj[o])) /\ Add(<< Call("cons.compute", o) >>) ELSE UNCHANGED << obj, script >>
    [] c >= 97 -> LET gs == IF Sub(r,3) % 2 = 0 THEN 1 ELSE 2 IN
                  Put(o, SetDst(SetSrc(obj[o], gs), 3 - gs)) /\ Add(<< SrcCall(Sub(r, 4), o, gs), DstCall(o, 3 - gs) >>)

Begin(o) == << Call("cons.new", o) >>
Setup(r, o) == LET s == << SrcCall(r, o, 1), DstCall(o, 2) >> IN IF Chance(Sub(r, 3), 50) THEN s ELSE << s[2], s[1] >>
Ready(o)  == (o :> Compute(SetDst(SetSrc(NewObj, 1), 2)))
\* the pairs of grids whose weights the calls c ask for
Asked(c) == {<< obj[e.o].cs, obj[e.o].cd >> : e \in {c[i] : i \in {j \in 1..Len(c) : c[j].op \in {"cons.dump", "cons.unit", "cons.apply"} /\ c[j].o \in DOMAIN obj /\ obj[c[j].o].cs # 0}}}
\* fresh objects for every pair of grids some object was computed with
References ==
  LET P == past \cup {<< obj[o].cs, obj[o].cd >> : o \in {i \in DOMAIN obj : obj[i].cs # 0}}
      RECURSIVE go(_, _)
      go(S, i) == IF S = {} THEN <<>>
                  ELSE LET p == CHOOSE x \in S : TRUE
                           os == {o \in DOMAIN obj : << obj[o].cs, obj[o].cd >> = p}
                           ref == 100 + i
                           ask(o) == << [op |-> "cons.dump", o |-> o, max |-> DimOf(p[1]) * DimOf(p[2]) + 20],
                                        [op |-> "cons.unit", o |-> o, ns |-> DimOf(p[1]), nd |-> DimOf(p[2])],
                                        [op |-> "cons.apply", o |-> o, f |-> Field(Key(k), DimOf(p[1])), init |-> Inits(Key(k), DimOf(p[2]))] >>
                           RECURSIVE each(_)
                           each(T) == IF T = {} THEN <<>> ELSE LET o == CHOOSE x \in T : TRUE IN ask(o) \o each(T \ {o})
                       IN << Call("cons.new", ref), SrcCall(0, ref, p[1]), DstCall(ref, p[2]), Call("cons.compute", ref) >>
                          \o ask(ref) \o each(os) \o << Call("cons.del", ref) >> \o go(S \ {p}, i + 1)
  IN go(P, 1)

Length == CASE Mode = "history" -> 40 [] Mode = "iterate" -> 60 [] OTHER -> 1
StepMode ==
  LET r == Sub(Key(k), 1000 + n) IN
  CASE Mode = "weights" ->
         obj' = Ready(1) /\ Add(Begin(1) \o Setup(r, 1) \o << Call("cons.compute", 1), [op |-> "cons.dump", o |-> 1, max |-> DimOf(1) * DimOf(2) + 20] >>)
    [] Mode = "apply" ->
         LET ap(i) == [op |-> "cons.apply", o |-> 1, f |-> Field(Sub(r, 20 + i), DimOf(1)), init |-> Inits(Sub(r, 30 + i), DimOf(2))] IN
         obj' = Ready(1) /\ Add(Begin(1) \o Setup(r, 1) \o << Call("cons.compute", 1), [op |-> "cons.dump", o |-> 1, max |-> DimOf(1) * DimOf(2) + 20],
                                   ap(1), ap(2), ap(3), Call("cons.next", 1), ap(1) >>)
    [] Mode = "iterate" ->
         IF n = 0 THEN IF Chance(Sub(r, 1), 70) THEN obj' = Ready(1) /\ Add(Begin(1) \o Setup(r, 1) \o << Call("cons.compute", 1), Call("cons.get", 1) >>)
                       ELSE Put(1, NewObj) /\ Add(Begin(1) \o << Call("cons.get", 1) >>)
         ELSE Iterate(r, 1)
    [] Mode = "history" -> Walk(r, 1 + (Key(k) % 3))

Next == /\ ~done /\ k' = k
        /\ \/ n < Length /\ n' = n + 1 /\ StepMode /\ UNCHANGED done
              /\ past' = IF Mode = "history" THEN past \cup Asked(SubSeq(script', Len(script) + 1, Len(script'))) ELSE past
           \/ n = Length /\ done' = TRUE /\ n' = n /\ UNCHANGED << obj, past >>
              /\ script' = script \o (IF Mode = "history" THEN References ELSE IF Mode = "iterate" THEN << UnitCall(1), DumpCall(1) >> ELSE <<>>)
              /\ Emit(script')
=============================================================================
