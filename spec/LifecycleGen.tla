---------------------------- MODULE LifecycleGen ----------------------------
(* The same calls again and again on one object, of every kind.              *)
EXTENDS Grid, GridGen
VARIABLES k, script, done
c0 == << R(0), R(0) >>
Gr(r, i) == RandomGrid(Sub(r, 100 + i), i, R(1), c0, 2)
NN(r, i) == LET nn == Gr(r, i).n IN nn[1] * nn[2]
NC(r, i) == NumCells(Gr(r, i).n)
Vals(r, m) == Tab(m, LAMBDA i : RHex(RRound(Generic(Sub(r, i)))))
Small(r, m) == Tab(m, LAMBDA i : RHex(RFrac(Range(Sub(r, i), -8, 8), 4)))
C(op) == [op |-> op, o |-> 1]
Gd(op, g) == [op |-> op, o |-> 1, g |-> g, per |-> << 0, 0 >>]
Dst(op, g) == [op |-> op, o |-> 1, g |-> g]
\* a random choice of parts of a sequence of pieces (each piece kept with probability pc)
Some(r, ps, pc) == Concat(Tab(Len(ps), LAMBDA i : IF Chance(Sub(r, i), pc) THEN ps[i] ELSE <<>>))
Cons(r) ==
  LET s(i) == << Gd("cons.src", i) >>  d(i) == << Dst("cons.dst", i) >>
      q == << << C("cons.compute") >>, << C("cons.compute"), C("cons.reset"), C("cons.next"), C("cons.get") >>, << [op |-> "cons.dump", o |-> 1, max |-> 2000] >>,
              << [op |-> "cons.apply", o |-> 1, f |-> Vals(Sub(r, 1), NC(r, 2)), init |-> Vals(Sub(r, 2), NC(r, 1))] >> >> IN
  << C("cons.new") >> \o << << s(1) \o d(2) \o Some(Sub(r, 3), << s(1), d(2) >>, 40), s(2) \o d(1) \o << C("cons.compute") >> \o Some(Sub(r, 4), q, 60) >>, << C("cons.del") >> >>
Node(r) ==
  LET s(i) == << Gd("node.src", i) >>  d(i) == << Dst("node.dst", i) >>
      q == << << C("node.compute") >>, << [op |-> "node.apply", o |-> 1, f |-> Vals(Sub(r, 1), NN(r, 2)), init |-> Vals(Sub(r, 2), NN(r, 1))] >>, << C("node.compute") >> >> IN
  << [op |-> "node.new", o |-> 1, nit |-> 50, tol |-> "1e-8"] >> \o << << s(1) \o d(2) \o Some(Sub(r, 3), << s(1), d(2), << C("node.compute") >> >>, 40), s(2) \o d(1) \o << C("node.compute") >> \o Some(Sub(r, 4), q, 60) >>, << C("node.del") >> >>
Flow(r) ==
  LET s(i) == << [op |-> "flow.src", o |-> 1, g |-> i] >>  d(i) == << Dst("flow.dst", i) >>
      e(i) == LET nn == Gr(r, i).n IN << (nn[1]-1) * nn[2], nn[1] * (nn[2]-1) >>
      q == << << C("flow.compute") >>, << [op |-> "flow.apply", o |-> 1, f0 |-> Vals(Sub(r, 1), e(2)[1]), f1 |-> Vals(Sub(r, 2), e(2)[2]), init |-> Vals(Sub(r, 5), 4)] >>, << C("flow.compute") >> >> IN
  << C("flow.new") >> \o << << s(1) \o d(8) \o Some(Sub(r, 3), << s(1), d(8), << C("flow.compute") >> >>, 40), s(2) \o d(9) \o << C("flow.compute") >> \o Some(Sub(r, 4), q, 60) >>, << C("flow.del") >> >>
Find(r) ==
  LET g(i) == << Gd("find.grid", i) >>
      se == << [op |-> "find.reset", o |-> 1, idx |-> << RHex(RFrac(1, 2)), RHex(RFrac(1, 4)) >>, tgt |-> Small(Sub(r, 1), 2)], [op |-> "find.next", o |-> 1, nd |-> 2] >>
      run == << [op |-> "find.run", o |-> 1, nd |-> 2, max |-> 30] >> IN
  << [op |-> "find.new", o |-> 1, nit |-> 20, tol |-> "1e-8"] >> \o << << g(1) \o Some(Sub(r, 2), << g(2), se, run >>, 60), g(2) \o se \o Some(Sub(r, 3), << run, se, g(1), se \o run >>, 60) >>, << C("find.del") >> >>
Ovl(r) ==
  LET g(i) == << Gd("ovl.src", i) >>  p(i) == << [op |-> "ovl.poly", o |-> 1, pts |-> Small(Sub(r, 10 + i), 2 * Range(Sub(r, 20 + i), 1, 6))] >>  f == << C("ovl.find") >> IN
  << C("ovl.new") >> \o << << g(1) \o p(1) \o f \o Some(Sub(r, 2), << f, p(2), g(2), f >>, 50), g(2) \o p(3) \o f \o f >>, << C("ovl.del") >> >>
Quad(r) == Vals(r, 8)
Qi(r) == LET s(i) == << [op |-> "qi.set", o |-> 1, a |-> Quad(Sub(r, i)), b |-> Quad(Sub(r, 10 + i))] >>  g == << C("qi.get") >> IN
  << C("qi.new") >> \o << << s(1) \o g \o Some(Sub(r, 30), << g, s(2) >>, 50), s(3) \o Some(Sub(r, 31), << g, s(4), g >>, 60) >>, << C("qi.del") >> >>
Qli(r) == LET q(i) == << [op |-> "qli.quad", o |-> 1, q |-> Quad(Sub(r, i))] >>  li(i) == << [op |-> "qli.line", o |-> 1, l |-> Vals(Sub(r, 10 + i), 4)] >>  g == << C("qli.get") >> IN
  << C("qli.new") >> \o << << q(1) \o li(1) \o g \o Some(Sub(r, 30), << g, q(2), li(2) >>, 50), li(3) \o q(3) \o Some(Sub(r, 31), << g, q(4), g >>, 60) >>, << C("qli.del") >> >>
Cell0 == << RHex(R(0)), RHex(R(0)), RHex(R(1)), RHex(R(0)), RHex(R(1)), RHex(R(1)), RHex(R(0)), RHex(R(1)) >>
Qlf(r) == LET q == << [op |-> "qlf.quad", o |-> 1, q |-> Cell0] >>  li(i) == << [op |-> "qlf.line", o |-> 1, l |-> Tab(4, LAMBDA j : RHex(RFrac(Range(Sub(Sub(r, i), j), 0, 8), 8)))] >>  g == << C("qlf.compute") >> IN
  << C("qlf.new") >> \o << << q \o li(1) \o g \o Some(Sub(r, 30), << g, q, li(2) >>, 50), li(3) \o q \o Some(Sub(r, 31), << g, q, g >>, 60) >>, << C("qlf.del") >> >>
Ls(r) ==
  LET nr == Range(Sub(r, 1), 1, 4)  nc == Range(Sub(r, 2), 1, 4)
      m(i) == << [op |-> "ls.mat", o |-> 1, a |-> Vals(Sub(r, 10 + i), nr * nc)] >>  b(i) == << [op |-> "ls.rhs", o |-> 1, b |-> Vals(Sub(r, 20 + i), nr)] >>
      s == << C("ls.solve"), [op |-> "ls.sol", o |-> 1, nc |-> nc] >>  rs == << C("ls.res") >> IN
  << [op |-> "ls.new", o |-> 1, nr |-> nr, nc |-> nc] >> \o << << m(1) \o b(1) \o s \o Some(Sub(r, 30), << rs, b(2), s, m(2) >>, 50), m(3) \o b(3) \o s \o Some(Sub(r, 31), << rs, s, b(4) \o s \o rs >>, 50) >>, << C("ls.del") >> >>
Kind(r) == LET c == Sub(r, 1) % 9  s == Sub(r, 2) IN
  CASE c = 0 -> Cons(s) [] c = 1 -> Node(s) [] c = 2 -> Flow(s) [] c = 3 -> Find(s) [] c = 4 -> Ovl(s) [] c = 5 -> Qi(s) [] c = 6 -> Qli(s) [] c = 7 -> Qlf(s) [] c = 8 -> Ls(s)
Script(r) ==
  LET s == Sub(r, 2)
      x == Kind(r)                              \* new, two repeated parts, delete
      rep(t) == x[2][1] \o << Probe(t \o "a") >> \o x[2][2] \o << Probe(t \o "b") >>
      round(t) == << x[1] >> \o rep(t) \o rep(t) \o rep(t) \o rep(t) \o x[3] \o << Probe("") >>
      line(i) == GridLine(i, << 5 >>, Tab(5, LAMBDA j : << RRound(R(2) ** Generic(Sub(Sub(s, 50 + i), j))), RRound(R(2) ** Generic(Sub(Sub(s, 50 + i), 10 + j))) >>)) IN
  << Probe(""), Gr(s, 1), Gr(s, 2), line(8), line(9) >> \o round("1") \o round("2") \o round("3") \o (IF Chance(Sub(r, 3), 30) THEN << x[1] >> \o x[2][1] \o x[3] \o << Probe("") >> \o << x[1] >> \o x[3] \o << Probe("") >> ELSE <<>>)
Init == k \in From..From+Count-1 /\ script = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ script' = << [op |-> "start", id |-> k] >> \o Script(Key(k)) /\ Emit(script')
=============================================================================
