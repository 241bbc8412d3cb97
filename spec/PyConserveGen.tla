--------------------------- MODULE PyConserveGen ---------------------------
(* Histories of the Python regridder, out of order calls included.           *)
EXTENDS PyConserve, GridGen
VARIABLES k, n, obj, script, done
vars == << k, n, obj, script, done >>
NG == 5
GridsOf(b) ==
  LET r == Key(b)
      sc == Among(Sub(r, 1), << R(1), R(1), R(1), RFrac(1, 8), R(64), RFrac(1, 10) >>)
      ce == Among(Sub(r, 2), << << R(0), R(0) >>, << R(0), R(0) >>, << R(100), R(-50) >> >>)
      whole(id) == GridLine(id, << Range(Sub(r, 40+id), 2, 4), Range(Sub(r, 50+id), 2, 4) >>,
                       Nodes(Sub(r, 60+id), << Range(Sub(r, 40+id), 2, 4), Range(Sub(r, 50+id), 2, 4) >>, Linear[1], R(2), << R(Range(Sub(r, 70+id), -1, 1)), R(0) >>, "none", R(0)))
      far(id) == GridLine(id, <<3, 2>>, Nodes(Sub(r, 6), <<3, 2>>, Linear[1], sc, << ce[1] ++ R(20), ce[2] ++ R(20) >>, "none", R(0)))
      wide(id) == GridLine(id, <<3, 4>>, Nodes(Sub(r, 7), <<3, 4>>, Linear[1], sc ** R(4), << ce[1] // R(4), ce[2] // R(4) >>, "none", R(0)))
      free(id) == RandomGrid(Sub(r, 10 + id), id, sc, ce, 3)
      allInt == Chance(Sub(r, 8), 25)
  IN TLCEval([i \in 1..NG |-> IF allInt THEN whole(i) ELSE IF i = 2 /\ Chance(Sub(r, 5), 75) THEN Twin(Sub(r, 9), 2, free(1)) ELSE IF i = 3 /\ Chance(Sub(r, 12), 40) THEN Twin(Sub(r, 13), 3, free(1)) ELSE IF i = 4 /\ Chance(Sub(r, 3), 60) THEN far(i)
                      ELSE IF i = 5 /\ Chance(Sub(r, 4), 60) THEN wide(i) ELSE free(i)])
G(i) == script[1 + i]
NCof(i) == (G(i).n[1] - 1) * (G(i).n[2] - 1)
ShapeOf(i) == << G(i).n[1] - 1, G(i).n[2] - 1 >>
Hows == << "c", "c", "fortran", "transposed", "strided", "reversed", "columns", "readonly", "list", "big", "f4", "i4", "i8", "i2" >>
Field(r, m) ==
  LET kind == Sub(r, 1) % 8
      val(i) == CASE kind = 0 -> RHex(R(1)) [] kind = 1 -> RHex(IF i = 1 + (Sub(r, 2) % m) THEN R(1) ELSE R(0))
                  [] kind = 2 -> RHex(R(i)) [] kind = 3 -> RHex(R(Range(Sub(r, 3 + i), -100, 100)))
                  [] kind = 4 -> IF i = 1 + (Sub(r, 2) % m) THEN Among(Sub(r, 3), << "nan", "inf", "-inf" >>) ELSE RHex(Generic(Sub(r, 10 + i)))
                  [] kind = 5 -> IF Chance(Sub(r, 10 + i), 70) THEN Among(Sub(r, 3), << "nan", "inf" >>) ELSE RHex(R(1))
                  [] OTHER -> RHex(RRound(Generic(Sub(r, 10 + i)) ** R(Range(Sub(r, 4), 1, 1000))))
  IN Tab(m, LAMBDA i : val(i))
Call(op, o) == [op |-> op, o |-> o]
SrcCall(r, o, g) == [op |-> "py.src", o |-> o, g |-> g, per |-> Periodic(Sub(r, 3)), how |-> << Among(Sub(r, 1), Hows), Among(Sub(r, 2), Hows) >>, reuse |-> Chance(Sub(r, 7), 40)]
DstCall(r, o, g) == [op |-> "py.dst", o |-> o, g |-> g, how |-> << Among(Sub(r, 1), Hows), Among(Sub(r, 2), Hows) >>, reuse |-> Chance(Sub(r, 7), 40)]
\* reuse: the numbers are written into an array that was given before, if there is one that can hold them
ApplyCall(r, o) == LET g == obj[o].src IN
  [op |-> "py.apply", o |-> o, how |-> Among(Sub(r, 1), Hows), reuse |-> Chance(Sub(r, 7), 50), f |-> Field(Sub(r, 2), IF g = 0 THEN 4 ELSE NCof(g)),
   shape |-> IF g = 0 THEN << 2, 2 >> ELSE IF Chance(Sub(r, 3), 20) THEN << NCof(g) >> ELSE ShapeOf(g)]
Init == k \in From..From+Count-1 /\ n = 0 /\ obj = <<>> /\ done = FALSE /\ script = << [op |-> "start", id |-> k] >> \o GridsOf(k)
Add(c) == script' = script \o c
Put(o, a) == obj' = (o :> a) @@ obj
Walk(r, lastObj) ==
  LET o == Range(Sub(r, 1), 1, lastObj)
      c == Sub(r, 2) % 100
      g == Range(Sub(r, 3), 1, NG)
  IN IF o \notin DOMAIN obj THEN Put(o, PyNew) /\ Add(<< Call("py.new", o) >>)
     ELSE CASE c < 18 -> Put(o, PySrc(obj[o], g)) /\ Add(<< SrcCall(Sub(r, 4), o, g) >>)
            [] c >= 18 /\ c < 36 -> Put(o, PyDst(obj[o], g)) /\ Add(<< DstCall(Sub(r, 4), o, g) >>)
            [] c >= 36 /\ c < 62 -> Put(o, PyCompute(obj[o])) /\ Add(<< Call("py.compute", o) >>)
            [] c >= 62 /\ c < 92 -> UNCHANGED obj /\ Add(<< ApplyCall(Sub(r, 6), o) >>)
            [] c >= 92 /\ c < 97 -> UNCHANGED obj /\ Add(<< [op |-> "py.spoil", o |-> o, v |-> Among(Sub(r, 7), << "nan", "inf", "0x1p+3" >>)] >>)
            [] OTHER -> obj' = [i \in DOMAIN obj \ {o} |-> obj[i]] /\ Add(<< Call("py.del", o) >>)
Length == 30
Next == /\ ~done /\ k' = k
        /\ \/ n < Length /\ n' = n + 1 /\ Walk(Sub(Key(k), 1000 + n), 1 + (Key(k) % 2)) /\ UNCHANGED done
           \/ n = Length /\ done' = TRUE /\ n' = n /\ UNCHANGED << obj, script >> /\ Emit(script)
=============================================================================
