------------------------------ MODULE IndexGen -----------------------------
(* Behaviours of the index iterators.                                        *)
EXTENDS Index, GenBase
CONSTANT Mode           \* "box", "smallbox" (exhaustive) or "side"
VARIABLES k, script, done

Ask(o, i, nd, b, e) == << [op |-> "box.elem", o |-> o, i |-> i, nd |-> nd], [op |-> "box.index", o |-> o, inds |-> Element(b, e, i)] >>
NewBox(o, b, e) == << [op |-> "box.new", o |-> o, b |-> b, e |-> e], [op |-> "box.num", o |-> o] >>
Call(op, o) == [op |-> op, o |-> o]
\* all the boxes with a given begin and extents up to 3
SmallBegins == TLCEval(UNION { [1..nd -> IF nd < 3 THEN {-4, -1, 0, 2} ELSE {-2, 0, 1}] : nd \in 1..3 })
SeqOf(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET t == CHOOSE u \in T : TRUE IN << t >> \o go(T \ {t}) IN go(S)
SmallScript(b) ==
  LET nd == Len(b)
      ext == SeqOf([1..nd -> 0..(IF nd = 1 THEN 6 ELSE 3)])
  IN Concat(Tab(Len(ext), LAMBDA x :
       LET e == [i \in 1..nd |-> b[i] + ext[x][i]] IN
       NewBox(1, b, e) \o Concat(Tab(Size(b, e), LAMBDA i : Ask(1, i - 1, nd, b, e))) \o << Call("box.del", 1) >>))
\* several larger boxes alive, asked in turn
BoxScript(r) ==
  LET nb == Range(Sub(r, 1), 1, 3)
      nd(o) == IF Chance(Sub(r, 15 + o), 10) THEN Range(Sub(r, 10 + o), 7, 11) ELSE Range(Sub(r, 10 + o), 1, 6)
      mx(o) == << 2000000000, 45000, 1250, 210, 72, 35, 21, 14, 10, 8, 6 >>[nd(o)]
      B == Tab(nb, LAMBDA o : Tab(nd(o), LAMBDA i : Among(Sub(Sub(r, 20 + o), i), << 0, 1, -1, -3, 7, -100, 1000 >>)))
      F == Tab(nb, LAMBDA o : Tab(nd(o), LAMBDA i : B[o][i] + (IF Chance(Sub(Sub(r, 30 + o), i), 15) THEN 1 ELSE Range(Sub(Sub(r, 40 + o), i), 1, IF Chance(Sub(Sub(r, 50 + o), i), 30) THEN 5 ELSE mx(o)))))
      pick(s, o) == LET n == Size(B[o], F[o]) IN Among(Sub(s, 1), << 0, n - 1, n \div 2, Sub(s, 2) % n, Sub(s, 3) % n, Sub(s, 4) % n, (Sub(s, 5) % 40) % n >>)
  IN Concat(Tab(nb, LAMBDA o : NewBox(o, B[o], F[o]))) \o
     Concat(Tab(60, LAMBDA i : LET s == Sub(r, 100 + i)  o == 1 + (Sub(s, 9) % nb) IN Ask(o, pick(s, o), nd(o), B[o], F[o]))) \o
     Concat(Tab(nb, LAMBDA o : << Call("box.num", o), Call("box.del", o) >>))
\* side iterators: complete passes and arbitrary walks; st: positions
SideScript(r) ==
  LET no == 2
      nd(o) == IF o = 1 /\ Chance(Sub(r, 11), 10) THEN Range(Sub(r, o), 6, 8) ELSE Range(Sub(r, o), 1, IF o = 1 THEN 5 ELSE 3)
      RECURSIVE walk(_, _, _)
      walk(S, i, lim) == IF i > lim THEN <<>>
        ELSE LET s == Sub(r, 100 + i)
                 o == 1 + (Sub(s, 1) % no)
                 c == Sub(s, 2) % 100
             IN IF c < 35 THEN << Call("side.get", o) >> \o walk(S, i + 1, lim)
                ELSE IF c < 40 THEN << Call("side.num", o) >> \o walk(S, i + 1, lim)
                ELSE IF c < 46 \/ ~Usable(S[o]) THEN << Call("side.reset", o), Call("side.get", o) >> \o walk([S EXCEPT ![o] = TLCEval(ResetSide(@))], i + 1, lim)
                ELSE << Call("side.next", o) >> \o walk([S EXCEPT ![o] = TLCEval(NextSide(@))], i + 1, lim)
      pass(o) == Tab((2 * NumSides(nd(o))) + 1, LAMBDA i : Call(IF i = 1 THEN "side.reset" ELSE IF i % 2 = 0 THEN "side.get" ELSE "side.next", o))
      new(o) == [op |-> "side.new", o |-> o, nd |-> nd(o)]
  IN << new(1), new(2) >> \o (IF Chance(Sub(r, 9), 50) THEN Tail(pass(1)) ELSE <<>>)
     \o (IF Chance(Sub(r, 9), 50) THEN << Call("side.reset", 1) >> ELSE <<>>)
     \o walk([o \in 1..no |-> NewSide(nd(o))], 1, 80) \o pass(2) \o << Call("side.num", 1), Call("side.del", 1) >> \o pass(2) \o << Call("side.del", 2) >>

Plan(i) == LET r == Key(i) IN CASE Mode = "box" -> BoxScript(r) [] Mode = "side" -> SideScript(r)
Init == /\ IF Mode = "smallbox" THEN k \in SmallBegins ELSE k \in From..From+Count-1
        /\ script = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k
        /\ script' = << [op |-> "start", id |-> IF Mode = "smallbox" THEN 0 ELSE k] >> \o (IF Mode = "smallbox" THEN SmallScript(k) ELSE Plan(k))
        /\ Emit(script')
=============================================================================
