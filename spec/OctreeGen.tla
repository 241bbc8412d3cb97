----------------------------- MODULE OctreeGen -----------------------------
(* Point sets and queries.                                                   *)
EXTENDS Octree, GenBase
VARIABLES k, script, done
Hexes(v) == Tab(Len(v), LAMBDA i : RHex(v[i]))
Obj(r, o) ==
  LET nd == IF Chance(Sub(r, 15), 6) THEN 4 ELSE Range(Sub(r, 1), 1, 3)
      np == IF Chance(Sub(r, 14), 3) THEN Among(Sub(r, 2), << 65, 130, 300 >>) ELSE Range(Sub(r, 2), 2, 12)
      kind == Sub(r, 3) % 4
      base(j) == Among(Sub(r, 4 + j), << R(0), R(0), R(-1), R(100), RFrac(-7, 3) >>)
      ext(j) == Among(Sub(r, 8 + j), << R(1), R(1), R(8), RFrac(1, 1000), RFrac(10, 7), R(1000) >>)
      pts == Concat(Tab(np, LAMBDA i : Tab(nd, LAMBDA j :
               LET s == Sub(Sub(r, 20 + i), j)
                   u == IF i = 1 THEN R(0) ELSE IF i = 2 THEN R(1) ELSE IF kind = 0 THEN RFrac(s % 9, 8) ELSE (R(1) ++ Generic(s)) // R(2) IN
               RRound(base(j) ++ (ext(j) ** u)))))
      levs == Range(Sub(r, 12), 1, IF nd = 4 THEN 2 ELSE IF nd = 3 THEN 3 ELSE IF nd = 2 THEN 4 ELSE 6)
  IN [o |-> o, nd |-> nd, levs |-> levs, pts |-> Concat(Shuffle(Sub(r, 13), Tab(np, LAMBDA i : SubSeq(pts, (i-1)*nd + 1, i*nd))))]
Queries(r, ob) ==
  LET d == Domain(ob.pts, ob.nd)
      nd == ob.nd
      maxlev == Among(Sub(r, 1), << ob.levs, ob.levs, ob.levs + 2, 12, 12, 20 >>)
      kind == Sub(r, 2) % 8
      at(j, u) == RRound(d.lo[j] ++ (u ** (d.hi[j] -- d.lo[j])))
      pt == CASE kind = 0 -> LET i == Sub(r, 3) % (Len(ob.pts) \div nd) IN SubSeq(ob.pts, i*nd + 1, (i+1)*nd)
              [] kind < 3 -> Tab(nd, LAMBDA j : at(j, RFrac(Range(Sub(r, 10 + j), -2, 18), 16)))     \* faces, corners, outside
              [] kind = 3 -> Tab(nd, LAMBDA j : at(j, RFrac(Range(Sub(r, 10 + j), -1, 3), 2)))
              [] OTHER    -> Tab(nd, LAMBDA j : at(j, (R(1) ++ (RFrac(5, 4) ** Generic(Sub(r, 10 + j)))) // R(2)))
      ks == Tab(nd, LAMBDA j : 0)
      key == Tab(Range(Sub(r, 4), 0, ob.levs), LAMBDA i : Sub(r, 30 + i) % 2^nd)
      centre == Tab(nd, LAMBDA j : RRound((BoxLo(key, nd, j, d.lo[j], d.hi[j]) ++ BoxHi(key, nd, j, d.lo[j], d.hi[j])) // R(2)))
      ask(p, lev) == [op |-> "oct.key", o |-> ob.o, pt |-> Hexes(p), lev |-> lev]
      box(q) == [op |-> "oct.box", o |-> ob.o, key |-> q]
  IN Tab(maxlev + 1, LAMBDA i : ask(pt, i - 1))
     \o Tab(ob.levs + 1, LAMBDA i : box(KeyOf(pt, d.lo, d.hi, i - 1)))
     \o << box(key), ask(centre, Len(key)) >>
\* the key kept for a point of the set, before or after it is asked for
Stored(r, ob) ==
  LET i == r % (Len(ob.pts) \div ob.nd)
      pt == Hexes(SubSeq(ob.pts, i*ob.nd + 1, (i+1)*ob.nd))
      kept == [op |-> "oct.node", o |-> ob.o, i |-> i, pt |-> pt, lev |-> ob.levs]
      ask == [op |-> "oct.key", o |-> ob.o, pt |-> pt, lev |-> ob.levs] IN
  IF Chance(Sub(r, 1), 50) THEN << kept, ask >> ELSE << ask, kept >>
Script(r) ==
  LET obs == Tab(2, LAMBDA o : Obj(Sub(r, o), o)) IN
  Tab(2, LAMBDA o : [op |-> "oct.new", o |-> o, pts |-> Hexes(obs[o].pts), nd |-> obs[o].nd, lev |-> obs[o].levs])
  \o Concat(Tab(14, LAMBDA i : Queries(Sub(r, 10 + i), obs[1 + (i % 2)])))
  \o Concat(Tab(8, LAMBDA i : Stored(Sub(r, 70 + i), obs[1 + (i % 2)])))
  \o << [op |-> "oct.del", o |-> 1] >> \o Queries(Sub(r, 50), obs[2]) \o << [op |-> "oct.del", o |-> 2] >>
Init == k \in From..From+Count-1 /\ script = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ script' = << [op |-> "start", id |-> k] >> \o Script(Key(k)) /\ Emit(script')
=============================================================================
