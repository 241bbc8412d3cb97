----------------------------- MODULE SimplexGen ----------------------------
EXTENDS Simplex, GenBase
VARIABLES k, script, done
Kinds == << "line", "triangle", "tetra" >>
NumV(t) == CASE t = "line" -> 2 [] t = "triangle" -> 3 [] t = "tetra" -> 4
Val(r) == Among(r, << R(0), R(1), R(-1), Generic(Sub(r, 1)), Generic(Sub(r, 2)) ** R(1000000), RFrac(1, 3) >>)
Script(r) ==
  LET ty(i) == Among(Sub(r, i), Kinds)
      new(i) == [op |-> ty(i) \o ".new", o |-> i, p |-> Tab(3 * NumV(ty(i)), LAMBDA j : RHex(RRound(Val(Sub(Sub(r, 20 + i), j)))))]
      get(i) == [op |-> ty(i) \o ".get", o |-> i]
      del(i) == [op |-> ty(i) \o ".del", o |-> i]
      n == Range(Sub(r, 9), 1, 8)
  IN Concat(Tab(n, LAMBDA i : << new(i) >> \o (IF Chance(Sub(r, 40 + i), 50) THEN << get(1 + (Sub(r, 50 + i) % i)) >> ELSE <<>>)))
     \o Tab(n, LAMBDA i : get(i)) \o Concat(Tab(n, LAMBDA i : << del(i) >> \o (IF i < n THEN << get(n) >> ELSE <<>>)))
Init == k \in From..From+Count-1 /\ script = <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ k' = k /\ script' = << [op |-> "start", id |-> k] >> \o Script(Key(k)) /\ Emit(script')
=============================================================================
