---------------------------- MODULE MakeGridGen ----------------------------
EXTENDS MakeGrid, GenBase
CONSTANT Mode      \* "plane", "rot" or "tri"
VARIABLES k, script, done
Val(r) == RRound(Among(r, << R(0), R(1), R(-1), R(100), Generic(Sub(r, 1)) ** R(10), Generic(Sub(r, 2)), RFrac(1, 3), R(-1000) >>))
\* mostly small, sometimes around a power of two or larger
Dim(r) == IF Chance(r, 20) THEN 2 ELSE IF Chance(Sub(r, 2), 80) THEN Range(Sub(r, 1), 2, 14)
          ELSE Among(Sub(r, 1), << 15, 16, 17, 31, 32, 33, 34, 64, 65, 66, 100, 101, 130, 257, 300 >>)
\* at most one of the two is large
Both(r) == LET n == << Dim(Sub(r, 1)), Dim(Sub(r, 2)) >> IN IF n[1] > 14 /\ n[2] > 14 THEN << n[1], 3 >> ELSE n
Ang(r, s) == IF Chance(r, 50) THEN R(Among(Sub(r, 1), << 0, 0, 10, -10, 30, 45, 60, 90, -90, -45, 15, 180, -180, 120, 1, -30, 75, 270, 360, -360, 390, 540, -750, 1080 >>)) ELSE RRound(Among(Sub(r, 3), << R(1), R(1), R(4) >>) ** (s ** Generic(Sub(r, 2))))
\* very large grids: a few rows and columns of them are looked at
Large(r) == Among(r, << << 300, 300 >>, << 70000, 2 >>, << 2, 70000 >>, << 1000, 700 >>, << 257, 256 >>, << 40000, 3 >>, << 3, 33000 >>, << 256, 1025 >> >>)
Picks(r, m) == LET raw == << 0, 1, m - 1, m - 2, m \div 2 >> \o Tab(4, LAMBDA i : Sub(r, i) % m) IN
               Among(Sub(r, 9), << Distinct(raw), Distinct(raw), Distinct(Shuffle(Sub(r, 8), raw)) >>)
Look(r, c) == [rows |-> Picks(Sub(r, 1), c.n[1]), cols |-> Picks(Sub(r, 2), c.n[2])] @@ c
Plane(r) ==
  (IF Chance(Sub(r, 90), 40) THEN LET s == Sub(r, 91) IN
     << Look(Sub(s, 1), IF Chance(Sub(s, 2), 60) THEN [op |-> "mk.rect", n |-> Large(Sub(s, 7)), lo |-> << RHex(Val(Sub(s, 3))), RHex(Val(Sub(s, 4))) >>, hi |-> << RHex(Val(Sub(s, 5))), RHex(Val(Sub(s, 6))) >>]
                        ELSE [op |-> "mk.polar", n |-> Large(Sub(s, 7)), c |-> << RHex(Val(Sub(s, 3))), RHex(Val(Sub(s, 4))) >>, r |-> RHex(RAbs(Val(Sub(s, 5))))]) >> ELSE <<>>) \o
  Concat(Tab(6, LAMBDA i : LET s == Sub(r, i)  n == Both(Sub(s, 1))  q == Both(Sub(s, 7)) IN
    << [op |-> "mk.rect", n |-> n, lo |-> << RHex(Val(Sub(s, 3))), RHex(Val(Sub(s, 4))) >>, hi |-> << RHex(Val(Sub(s, 5))), RHex(Val(Sub(s, 6))) >>],
       [op |-> "mk.polar", n |-> q, c |-> << RHex(Val(Sub(s, 9))), RHex(Val(Sub(s, 10))) >>, r |-> RHex(RAbs(Val(Sub(s, 11))))] >>))
\* displacements that take nodes to the poles are as likely as generic ones
Rot(r) ==
  (IF Chance(Sub(r, 90), 25) THEN LET s == Sub(r, 91) IN
     << Look(Sub(s, 1), [op |-> "mk.rot", n |-> Large(Sub(s, 7)), dlat |-> RHex(Ang(Sub(s, 5), R(180))), dlon |-> RHex(Ang(Sub(s, 6), R(360)))]) >> ELSE <<>>) \o
  Tab(6, LAMBDA i : LET s == Sub(r, i)  n == Both(Sub(s, 1)) IN
    [op |-> "mk.rot", n |-> n, dlat |-> RHex(IF Chance(Sub(s, 7), 15) THEN R(0) ELSE IF Chance(Sub(s, 3), 30) THEN RFrac(180 * Range(Sub(s, 4), -(n[1]), n[1]), n[1] - 1) ELSE Ang(Sub(s, 5), R(180))), dlon |-> RHex(Ang(Sub(s, 6), R(360)))])
Tri(r) ==
  LET no == Range(Sub(r, 1), 1, 3)
      long(o) == Sub(r, 40 + o) % 24
      nlat(o) == IF long(o) = 0 THEN Among(Sub(r, 10 + o), << 32, 33, 34, 65 >>) ELSE Range(Sub(r, 10 + o), 3, 14)
      nlon(o) == IF long(o) = 1 THEN Among(Sub(r, 20 + o), << 32, 33, 34, 65, 100 >>) ELSE IF long(o) = 0 THEN Range(Sub(r, 20 + o), 3, 6) ELSE Range(Sub(r, 20 + o), 3, 17)
      get(o) == [op |-> "tri.get", o |-> o] IN
  Tab(no, LAMBDA o : [op |-> "tri.new", o |-> o, n |-> << nlat(o), nlon(o) >>, cap |-> Range(Sub(r, 30 + o), 1, nlat(o) - 2)])
  \o Tab(no, LAMBDA o : get(o)) \o << get(1), [op |-> "tri.del", o |-> 1] >>
  \o Tab(no - 1, LAMBDA o : get(o + 1)) \o Tab(no - 1, LAMBDA o : [op |-> "tri.del", o |-> o + 1])
\* the columns come in pairs that are folded onto each other
LargeTri(r) ==
  LET n == Among(Sub(r, 1), << << 300, 300 >>, << 3, 30000 >>, << 20000, 4 >>, << 130, 513 >>, << 4, 16385 >>, << 70000, 4 >>, << 70000, 3 >>, << 3, 70000 >> >>)
      cap == Among(Sub(r, 2), << 1, n[1] - 2, n[1] \div 2, n[1] - 2 - (Sub(r, 3) % (n[1] \div 3)) >>)
      cs == Tab(3, LAMBDA i : Sub(r, 10 + i) % n[2]) \o << 0, 1, (n[2] - 1) \div 2 >>
      rs == Tab(4, LAMBDA i : Sub(r, 20 + i) % n[1]) \o << cap, cap - 1, cap + 1, n[1] - 1, 0 >> IN
  << [op |-> "tri.new", o |-> 9, n |-> n, cap |-> cap],
     [op |-> "tri.some", o |-> 9, rows |-> Distinct(rs), cols |-> Distinct(cs \o Tab(Len(cs), LAMBDA i : n[2] - 1 - cs[i]))],
     [op |-> "tri.del", o |-> 9] >>
Plan(i) == LET r == Key(i) IN CASE Mode = "plane" -> Plane(r) [] Mode = "rot" -> Rot(r) [] Mode = "tri" -> (IF Chance(Sub(r, 95), 30) THEN LargeTri(Sub(r, 96)) ELSE <<>>) \o Tri(r)
Init == k \in From..From+Count-1 /\ script = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ script' = << [op |-> "start", id |-> k] >> \o Plan(k) /\ Emit(script')
=============================================================================
