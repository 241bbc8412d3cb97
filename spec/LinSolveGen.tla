---------------------------- MODULE LinSolveGen ----------------------------
(* Well conditioned systems of all shapes, and histories of solver objects.  *)
EXTENDS LinSolve, GenBase
VARIABLES k, script, done

Perm(r, n) == Shuffle(r, [i \in 1..n |-> i])
Min2(a, b) == IF a < b THEN a ELSE b
\* a dominant (rectangular) diagonal under permutations of the rows and columns
RandMatrix(r, nr, nc) ==
  LET n  == Min2(nr, nc)
      p  == TLCEval(Perm(Sub(r, 1), nr))
      q  == TLCEval(Perm(Sub(r, 2), nc))
      kind == Sub(r, 3) % 4
      sc == Among(Sub(r, 4), << R(1), R(1), R(1), RFrac(1, 1024), R(1000), RFrac(1, 1073741824) ** RFrac(1, 1048576), R(1073741824) ** R(1024) >>)
      small(s) == CASE kind = 0 -> R(0) [] kind = 1 -> RFrac(Range(s, -4, 4), 8 * n) [] OTHER -> Generic(s) // R(2 * n)
      d(i) == R(Range(Sub(r, 10 + i), 1, 4)) ** R(IF Chance(Sub(r, 30 + i), 50) THEN -1 ELSE 1)
      e(i, j) == IF i = j THEN d(i) ELSE IF i <= n /\ j <= n THEN small(Sub(r, 100 + 64*i + j)) ELSE Generic(Sub(r, 100 + 64*i + j))
  IN [m |-> Concat(Tab(nr, LAMBDA i : Tab(nc, LAMBDA j : RRound(sc ** e(p[i], q[j])))))]
RandRhs(r, n) ==
  LET kind == Sub(r, 1) % 4  sc == Among(Sub(r, 2), << R(1), R(1), R(100), RFrac(1, 1000), RFrac(1, 1073741824) ** RFrac(1, 1048576), R(1073741824) ** R(65536) >>)
      \* components of very different sizes
      part(i) == IF kind = 3 /\ Chance(Sub(r, 50 + i), 40) THEN RFrac(1, 1073741824) ** RFrac(1, 1024) ELSE R(1) IN
  Tab(n, LAMBDA i : CASE kind = 0 -> sc ** R(IF i = 1 + (Sub(r, 3) % n) THEN 1 ELSE 0) [] kind = 1 -> sc ** R(Range(Sub(r, 10 + i), -3, 3)) [] OTHER -> RRound(part(i) ** (sc ** Generic(Sub(r, 10 + i)))))
Hexes(v) == Tab(Len(v), LAMBDA i : RHex(v[i]))
Shape(r) == LET c == Sub(r, 1) % 10
                n == Range(Sub(r, 2), 1, 6)
                m == Range(Sub(r, 3), 1, 6)
                big == Range(Sub(r, 4), 1, 12) IN
            CASE c = 0 /\ Chance(Sub(r, 6), 12) -> LET wide == Among(Sub(r, 7), << 17, 20, 24 >>) IN << wide, wide >> [] c < 3 -> << n, n >> [] c = 9 -> << big, Range(Sub(r, 5), 1, 4) >> [] c = 8 -> << Range(Sub(r, 5), 1, 4), big >> [] OTHER -> << n, m >>
Call(op, o) == [op |-> op, o |-> o]
Script(r) ==
  LET no == 2
      sh == Tab(no, LAMBDA o : Shape(Sub(r, o)))
      mat(s, o) == [op |-> "ls.mat", o |-> o, a |-> Hexes(RandMatrix(s, sh[o][1], sh[o][2]).m)]
      rhs(s, o) == [op |-> "ls.rhs", o |-> o, b |-> Hexes(RandRhs(s, sh[o][1]))]
      sol(o) == [op |-> "ls.sol", o |-> o, nc |-> sh[o][2]]
      full(s, o) == (IF Chance(Sub(s, 1), 50) THEN << mat(Sub(s, 2), o), rhs(Sub(s, 3), o) >> ELSE << rhs(Sub(s, 3), o), mat(Sub(s, 2), o) >>) \o << Call("ls.solve", o), sol(o), Call("ls.res", o) >>
      step(s) == LET o == 1 + (Sub(s, 1) % no)  c == Sub(s, 2) % 100 IN
        CASE c < 25 -> << rhs(Sub(s, 3), o) >> [] c >= 25 /\ c < 45 -> << mat(Sub(s, 3), o) >>
          [] c >= 45 /\ c < 75 -> << Call("ls.solve", o), sol(o), Call("ls.res", o) >>
          [] c >= 75 /\ c < 82 -> << Call("ls.solve", o) >> [] c >= 82 /\ c < 90 -> << sol(o) >> [] OTHER -> << Call("ls.res", o) >>
  IN Tab(no, LAMBDA o : [op |-> "ls.new", o |-> o, nr |-> sh[o][1], nc |-> sh[o][2]])
     \o full(Sub(r, 11), 1) \o full(Sub(r, 12), 2)
     \o Concat(Tab(24, LAMBDA i : step(Sub(r, 20 + i)))) \o << Call("ls.del", 1), sol(2), Call("ls.solve", 2), sol(2), Call("ls.del", 2) >>
Init == k \in From..From+Count-1 /\ script = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ script' = << [op |-> "start", id |-> k] >> \o Script(Key(k)) /\ Emit(script')
=============================================================================
