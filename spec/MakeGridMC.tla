----------------------------- MODULE MakeGridMC ----------------------------
(* The definitions on all small dimensions: the announced consequences hold  *)
(* (rigidity, poles, no displacement), and wrong grids are refused.          *)
EXTENDS MakeGrid
CONSTANT MaxN
VARIABLES n, ang
Angles == {<< 0, 0 >>, << 30, 0 >>, << -45, 60 >>, << 90, 90 >>, << 17, -130 >>, << 180, 10 >>}
Init == n \in (2..MaxN) \X (2..MaxN) /\ ang = << 0, 0 >>
Next == ang = << 0, 0 >> /\ ang' \in Angles /\ n' = n
Base(k) == OnSphere(Even(R(-90), R(90), NI(n, k), n[1]), Even(R(-180), R(180), NJ(n, k), n[2]))
Img(k) == RotZ(R(ang[2]), RotY(R(ang[1]), Base(k)))
Chord2(p, q) == RSum([d \in 1..3 |-> (p[d] -- q[d]) ** (p[d] -- q[d])])
Eps == RFrac(1, 1000000000) ** RFrac(1, 1000)
Rigid == LET Im == [k \in 1..Count2(n) |-> Img(k)]  Ba == [k \in 1..Count2(n) |-> Base(k)] IN
  \A k \in 1..Count2(n) : \A m \in 1..k : RClose(Chord2(Im[k], Im[m]), Chord2(Ba[k], Ba[m]), Eps)
Poles == \A k \in 1..n[2] : RClose(Chord2(Img(k), Img(1)), R(0), Eps)
Fixed == ang = << 0, 0 >> => \A k \in 1..Count2(n) : RClose(Chord2(Img(k), Base(k)), R(0), Eps)
Closed == \A k \in 1..Count2(n) : NJ(n, k) = 0 => RClose(Chord2(Img(k), Img(k + n[2] - 1)), R(0), Eps)
Lo == << R(-1), R(2) >>
Hi == << R(3), R(2) ++ RFrac(n[2], 3) >>
X == [k \in 1..Count2(n) |-> Even(Lo[1], Hi[1], NI(n, k), n[1])]
Y == [k \in 1..Count2(n) |-> Even(Lo[2], Hi[2], NJ(n, k), n[2])]
Ok(x, y) == RectOK(n, All(n[1]), All(n[2]), Lo, Hi, x, y)
RectDecides == /\ Ok(X, Y)
               /\ \A k \in 1..Count2(n) : ~Ok([X EXCEPT ![k] = @ ++ RFrac(1, 1000000)], Y)
               /\ (Ok(X, Y) => ~Ok(Y, X))
=============================================================================
