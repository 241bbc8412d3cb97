------------------------------- MODULE NodeGen ------------------------------
(* Behaviours of the nodal regridder.                                        *)
EXTENDS Node, GridGen
CONSTANT Mode           \* "weights" or "history"
VARIABLES k, n, obj, script, past, done

NSizes == << 2, 2, 3, 3, 4, 4, 5, 6, 8 >>
Tols == << "0x1p-27", "0x1p-27", "0x1p-20", "0x1p-33" >>
\* source grids: displaced by at most 1/8 of the spacing, then mapped
Large(r) == Among(r, << << 2, 70 >>, << 131, 2 >>, << 17, 17 >>, << 3, 90 >>, << 20, 13 >>, << 2, 260 >> >>)
\* more nodes than two bytes can count
Vast(r) == Among(r, << << 2, 33000 >>, << 33000, 2 >>, << 257, 256 >>, << 300, 230 >>, << 4, 16390 >> >>)
Shape(r) == TLCEval([ n |-> IF Mode = "weights" /\ k % 53 = 21 THEN Vast(Sub(r, 13)) ELSE IF Chance(Sub(r, 12), 4) THEN Large(Sub(r, 13)) ELSE << Among(Sub(r, 3), NSizes), Among(Sub(r, 4), NSizes) >>,
    m |-> Among(Sub(r, 5), Linear), off |-> (LET o == Among(Sub(r, 6), Offsets)  c == Among(Sub(r, 11), << << R(0), R(0) >>, << R(0), R(0) >>, << R(0), R(0) >>, << R(1000), R(-40) >>, << R(-17), R(3000) >> >>) IN << o[1] ++ c[1], o[2] ++ c[2] >>), sc |-> Among(Sub(r, 7), << R(1), R(1), R(1), RFrac(1, 4), R(8) >>),
    kind |-> Among(Sub(r, 8), Displacements), amp |-> RFrac(Range(Sub(r, 10), 1, 2), 16), seed |-> Sub(r, 9) ])
NodesOf(s) == Nodes(s.seed, s.n, s.m, s.sc, s.off, s.kind, s.amp)
SrcGrid(id, s) == GridLine(id, s.n, NodesOf(s))
PosOf(s, u) == LET p == MapPt(s.m, << u[1] -- RFrac(s.n[1] - 1, 2), u[2] -- RFrac(s.n[2] - 1, 2) >>) IN
               << (p[1] ** s.sc) ++ (s.off[1] ** s.sc), (p[2] ** s.sc) ++ (s.off[2] ** s.sc) >>
\* one of many behaviours has more destination nodes than two bytes can count, nearly all of them in the grid
VastDst == Mode = "weights" /\ k % 53 = 40
\* a destination node in some relation to the source grid
Target(r, s, p) ==
  LET kind == IF VastDst /\ Sub(r, 1) % 4096 # 0 THEN Sub(r, 1) % 9 ELSE Sub(r, 1) % 12
      i == Sub(r, 2) % (s.n[1] - 1)
      j == Sub(r, 3) % (s.n[2] - 1)
      at(a, b) == p[(a * s.n[2]) + b + 1]
      q == << at(i, j), at(i+1, j), at(i+1, j+1), at(i, j+1) >>
      d == Among(Sub(r, 6), << 0, s.n[1] - 1 >>)
      e == Among(Sub(r, 7), << 0, s.n[2] - 1 >>)
      t == RFrac(Range(Sub(r, 4), 0, 16), 16)
      v == RFrac(Range(Sub(r, 5), 1, 999982), 999983) IN
  CASE kind < 3  -> Bilinear(q, << RFrac(Range(Sub(r, 4), 1, 999982), 999983), v >>)         \* inside a cell
    [] kind = 3  -> Bilinear(q, << RFrac(1, 2), RFrac(1, 2) >>)
    [] kind = 4  -> at(i + (Sub(r, 4) % 2), j + (Sub(r, 5) % 2))                             \* a source node
    [] kind = 5  -> at(d, e)                                                                 \* a corner of the grid
    [] kind = 6  -> Lerp(q[1], q[2], t)                                                      \* on an edge
    [] kind = 7  -> Lerp(at(d, j), at(d, j + 1), t)                                          \* on the boundary
    [] kind = 8  -> Lerp(at(i, e), at(i + 1, e), t)
    [] kind = 9  -> PosOf(s, << RFrac(Sub(r, 4) % (2 * s.n[1]), 2) -- RFrac(1, 4), RFrac(Sub(r, 5) % (2 * s.n[2]), 2) -- RFrac(1, 4) >>)  \* in or near the grid
    [] kind = 10 -> PosOf(s, << R(s.n[1]) ++ Generic(Sub(r, 4)), R(s.n[2]) ** Generic(Sub(r, 5)) >>)     \* mostly outside
    [] kind = 11 -> PosOf(s, << RFrac(-1, 2) ++ (Generic(Sub(r, 4)) // R(4)), R(s.n[2] - 1) ** v >>)
Pts(r, s, num) == LET p == TLCEval(NodesOf(s)) IN
  Tab(num, LAMBDA i : LET x == Target(Sub(r, i), s, p) IN << RRound(x[1]), RRound(x[2]) >>)
DstDims(r) == IF Chance(Sub(r, 3), 2) THEN Among(Sub(r, 4), << << 1, 70 >>, << 65, 1 >>, << 8, 9 >> >>) ELSE << Range(Sub(r, 1), 1, 4), Range(Sub(r, 2), 1, 5) >>
DstGrid(id, r, s) == LET d == IF VastDst THEN Among(Sub(r, 3), << << 258, 257 >>, << 2, 33000 >>, << 66000, 1 >> >>) ELSE DstDims(Sub(r, 1)) IN GridLine(id, d, Pts(Sub(r, 2), s, d[1] * d[2]))

Call(op, o) == [op |-> op, o |-> o]
New(r, o) == [op |-> "node.new", o |-> o, nit |-> Among(Sub(r, 1), << 100, 100, 100, 60, 150 >>), tol |-> Among(r, Tols)]
\* (weights are only judged for grids that are not declared periodic)
PerOf(g) == LET r == Sub(Key(k), 700 + g) IN IF Mode = "weights" \/ Chance(r, 80) THEN << 0, 0 >> ELSE << Sub(r, 1) % 2, Sub(r, 2) % 2 >>
SrcCall(o, g) == [op |-> "node.src", o |-> o, g |-> g, per |-> PerOf(g)]
DstCall(o, g) == [op |-> "node.dst", o |-> o, g |-> g]
GridN(g) == LET i == CHOOSE j \in 1..Len(script) : script[j].op = "grid" /\ script[j].id = g IN script[i].n
NumN(g) == GridN(g)[1] * GridN(g)[2]
UnitCall(o, a) == [op |-> "node.unit", o |-> o, ns |-> NumN(a.cs), nd |-> NumN(a.cd)]
Field(r, m) ==
  LET kind == Sub(r, 1) % 6
      sc == Among(Sub(r, 2), << R(100), R(100), R(1), RFrac(1, 1073741824) ** RFrac(1, 1048576), R(1073741824) ** R(1048576) >>)
      val(i) == CASE kind = 0 -> R(3) [] kind = 1 -> R((i % 2) * 2 - 1) [] kind = 2 -> R(i) [] OTHER -> Generic(Sub(r, 10 + i)) ** sc
  IN Tab(m, LAMBDA i : RHex(RRound(val(i))))
Inits(r, m) == Tab(m, LAMBDA i : Among(Sub(r, i), << "0x0p+0", "nan", "inf", "-0x1.8p+900", "0x1.123p-3" >>))
ApplyCall(r, o, a) == [op |-> "node.apply", o |-> o, f |-> Field(Sub(r, 1), NumN(a.cs)), init |-> Inits(Sub(r, 2), NumN(a.cd))]

\* source grids 1, 2, 3; destinations 11, 12, 13 around them
ShapeOf(i) == Shape(Sub(Key(k), 100 + i))
Dsts == IF VastDst THEN 1 ELSE 3
Init == /\ k \in From..From+Count-1 /\ n = 0 /\ obj = <<>> /\ past = {} /\ done = FALSE
        /\ script = << [op |-> "start", id |-> k] >> \o
             (IF Mode = "weights" THEN << SrcGrid(1, ShapeOf(1)) >> \o Tab(Dsts, LAMBDA i : DstGrid(10 + i, Sub(Key(k), 200 + i), ShapeOf(1)))
              ELSE Tab(3, LAMBDA i : IF i = 2 /\ Chance(Sub(Key(k), 305), 10) THEN SrcGrid(2, ShapeOf(1)) ELSE IF i = 2 /\ Chance(Sub(Key(k), 301), 75) THEN Twin(Sub(Key(k), 302), 2, SrcGrid(1, ShapeOf(1))) ELSE SrcGrid(i, ShapeOf(i)))
                   \o Tab(3, LAMBDA i : LET g == DstGrid(10 + i, Sub(Key(k), 200 + i), ShapeOf(i)) IN
                        IF i = 2 /\ Chance(Sub(Key(k), 303), 75) THEN Twin(Sub(Key(k), 304), 12, DstGrid(11, Sub(Key(k), 201), ShapeOf(1))) ELSE g))
Add(c)    == script' = script \o c
Put(o, a) == obj' = (o :> a) @@ obj
WeightsScript ==
  LET a(i) == [cs |-> 1, cd |-> 10 + i] IN
  << New(Sub(Key(k), 5), 1), SrcCall(1, 1) >> \o
  Concat(Tab(Dsts, LAMBDA i : << DstCall(1, 10 + i), Call("node.compute", 1), UnitCall(1, a(i)) >>)) \o << Call("node.del", 1) >>
Walk(r, lastObj) ==
  LET o == Range(Sub(r, 1), 1, lastObj)
      c == Sub(r, 2) % 100
      i == Range(Sub(r, 3), 1, 3)
  IN IF o \notin DOMAIN obj THEN Put(o, NewNode) /\ Add(<< New(Key(k), o) >>)
     ELSE CASE c < 18 -> Put(o, NSetSrc(obj[o], i)) /\ Add(<< SrcCall(o, i) >>)
            [] c >= 18 /\ c < 38 -> Put(o, NSetDst(obj[o], 10 + i)) /\ Add(<< DstCall(o, 10 + i) >>)
            [] c >= 38 /\ c < 62 -> IF NCan(obj[o]) THEN Put(o, NCompute(obj[o])) /\ Add(<< Call("node.compute", o) >>) ELSE UNCHANGED << obj, script >>
            [] c >= 62 /\ c < 80 -> IF obj[o].cs # 0 THEN UNCHANGED obj /\ Add(<< UnitCall(o, obj[o]) >>) ELSE UNCHANGED << obj, script >>
            [] c >= 80 /\ c < 95 -> IF obj[o].cs # 0 THEN UNCHANGED obj /\ Add(<< ApplyCall(Sub(r, 6), o, obj[o]) >>)
                                    ELSE UNCHANGED obj /\ Add(<< ApplyCall(Sub(r, 6), o, [cs |-> 1, cd |-> 11]) >>)
            [] c >= 95 -> obj' = [q \in DOMAIN obj \ {o} |-> obj[q]] /\ Add(<< Call("node.del", o) >>)
\* fresh objects for every pair of grids some object was computed with, and every object again
Asked(c) == {<< obj[e.o].cs, obj[e.o].cd >> : e \in {c[i] : i \in {j \in 1..Len(c) : c[j].op \in {"node.unit", "node.apply"} /\ c[j].o \in DOMAIN obj /\ obj[c[j].o].cs # 0}}}
Pairs == past \cup {<< obj[o].cs, obj[o].cd >> : o \in {i \in DOMAIN obj : obj[i].cs # 0}}
References ==
  LET RECURSIVE go(_, _)
      go(S, i) == IF S = {} THEN <<>>
        ELSE LET p == CHOOSE x \in S : TRUE
                 a == [cs |-> p[1], cd |-> p[2]]
                 ref == 100 + i
                 ask(o) == << UnitCall(o, a), ApplyCall(Key(k), o, a), ApplyCall(Sub(Key(k), 3), o, a) >>
                 RECURSIVE each(_)
                 each(T) == IF T = {} THEN <<>> ELSE LET o == CHOOSE x \in T : TRUE IN ask(o) \o each(T \ {o})
             IN << New(Key(k), ref), SrcCall(ref, p[1]), DstCall(ref, p[2]), Call("node.compute", ref) >>
                \o ask(ref) \o each({o \in DOMAIN obj : << obj[o].cs, obj[o].cd >> = p}) \o << Call("node.del", ref) >> \o go(S \ {p}, i + 1)
  IN go(Pairs, 1)
Length == IF Mode = "weights" THEN 1 ELSE 40
Next == /\ ~done /\ k' = k
        /\ \/ n < Length /\ n' = n + 1 /\ UNCHANGED done
              /\ (IF Mode = "weights" THEN UNCHANGED obj /\ Add(WeightsScript) ELSE Walk(Sub(Key(k), 1000 + n), 1 + (Key(k) % 3)))
              /\ past' = IF Mode = "weights" THEN past ELSE past \cup Asked(SubSeq(script', Len(script) + 1, Len(script')))
           \/ n = Length /\ done' = TRUE /\ n' = n /\ UNCHANGED << obj, past >>
              /\ script' = script \o (IF Mode = "weights" THEN <<>> ELSE References)
              /\ Emit(script')
=============================================================================
