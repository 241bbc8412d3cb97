---------------------------- MODULE ConserveMC -----------------------------
(* All behaviours of conservative regridders over a few small grids: any     *)
(* order of calls, any order in which an implementation may list the weights.*)
EXTENDS Conserve
CONSTANTS NObj, NGrid
VARIABLES obj,       \* abstract objects, as the trace specification keeps them
          truth,     \* the order in which this implementation lists the weights (prefix known so far)
          passes     \* weights visited since the iteration was last at its beginning
vars == << obj, truth, passes >>

Pt(x, y) == << R(x), R(y) >>
Mk(n, p) == LET g == [n |-> n, p |-> p]  ps == Polys(g) IN
            [n |-> n, p |-> p, poly |-> ps, box |-> TLCEval([c \in 1..Len(ps) |-> Box(ps[c])]), area |-> TLCEval([c \in 1..Len(ps) |-> Area(ps[c])])]
\* two cells; one big cell; one cell over the second one, clockwise; a cell elsewhere
Grids == TLCEval(<< Mk(<<3, 2>>, << Pt(0,0), Pt(0,1), Pt(1,0), Pt(1,1), Pt(2,0), Pt(2,1) >>),
            Mk(<<2, 2>>, << Pt(0,0), Pt(0,2), Pt(2,0), Pt(2,2) >>),
            Mk(<<2, 2>>, << Pt(3,-1), Pt(1,-1), Pt(3,1), Pt(1,1) >>),
            Mk(<<2, 2>>, << Pt(9,9), Pt(9,10), Pt(10,9), Pt(10,10) >>) >>)
W == TLCEval([c \in (1..NGrid) \X (1..NGrid) |->
       {<< p[1], p[2], RStr(Fraction(Grids[c[1]], Grids[c[2]], p[1], p[2])) >> :
          p \in {q \in Candidates(Grids[c[1]], Grids[c[2]]) : RSign(Fraction(Grids[c[1]], Grids[c[2]], q[1], q[2])) > 0}}])
WOf(o) == IF o.cs = 0 THEN {} ELSE W[<< o.cs, o.cd >>]

\* ---- the exact weights themselves: partition of unity, conservation, symmetry, identity
SumOver(S) == LET RECURSIVE s(_) s(T) == IF T = {} THEN R(0) ELSE LET t == CHOOSE u \in T : TRUE IN R(t[3]) ++ s(T \ {t}) IN s(S)
AsFun(S) == TLCEval([p \in {<< t[1], t[2] >> : t \in S} |-> (CHOOSE t \in S : << t[1], t[2] >> = p)[3]])
ASSUME \A c \in DOMAIN W :
  /\ WeightsExact(Grids[c[1]], Grids[c[2]], AsFun(W[c]))
  /\ \A t \in W[c] : ~WeightsExact(Grids[c[1]], Grids[c[2]], AsFun(W[c] \ {t}))
  /\ LET cov == CoverageOf(Grids[c[1]], Grids[c[2]]) IN
     /\ \A d \in cov.cells : REq(SumOver({t \in W[c] : t[2] = d}), 1)
     /\ \A d \in 0..Len(Grids[c[2]].poly)-1 : SumOver({t \in W[c] : t[2] = d}) \preceq R(1)
     /\ cov.src => \A s \in 0..Len(Grids[c[1]].poly)-1 :
          REq(RSum([d \in 1..Len(Grids[c[2]].poly) |-> SumOver({t \in W[c] : t[1] = s /\ t[2] = d-1}) ** Grids[c[2]].area[d]]), Grids[c[1]].area[s+1])
  /\ \A t \in W[c] : \E u \in W[<< c[2], c[1] >>] : u[1] = t[2] /\ u[2] = t[1]
                     /\ REq(R(t[3]) ** Grids[c[2]].area[t[2]+1], R(u[3]) ** Grids[c[1]].area[t[1]+1])
ASSUME \A g \in 1..NGrid : W[<< g, g >>] = {<< c, c, "1" >> : c \in 0..Len(Grids[g].poly)-1}

Init == obj = [o \in 1..NObj |-> NewObj] /\ truth = [o \in 1..NObj |-> <<>>] /\ passes = [o \in 1..NObj |-> {}]
Put(o, a) == obj' = [obj EXCEPT ![o] = a]
DoSrc(o, g) == Put(o, SetSrc(obj[o], g)) /\ UNCHANGED << truth, passes >>
DoDst(o, g) == Put(o, SetDst(obj[o], g)) /\ UNCHANGED << truth, passes >>
DoCompute(o) == /\ CanCompute(obj[o]) /\ Put(o, Compute(obj[o]))
                /\ truth' = [truth EXCEPT ![o] = <<>>] /\ passes' = [passes EXCEPT ![o] = {}]
DoReset(o) == Put(o, Reset(obj[o])) /\ passes' = [passes EXCEPT ![o] = {}] /\ UNCHANGED truth
\* the implementation reports the weight at its position: one it has fixed before, or any other
DoGet(o) ==
  /\ passes' = [passes EXCEPT ![o] = @ \cup (IF WOf(obj[o]) = {} THEN {} ELSE {obj[o].pos})]
  /\ IF WOf(obj[o]) = {} THEN Put(o, Get(obj[o], -1, -1, 0)) /\ UNCHANGED truth
     ELSE \E t \in WOf(obj[o]) :
        /\ obj[o].pos + 1 \in DOMAIN truth[o] => t = truth[o][obj[o].pos + 1]
        /\ obj[o].pos + 1 \notin DOMAIN truth[o] => (\A i \in DOMAIN truth[o] : truth[o][i] # t)
        /\ truth' = [truth EXCEPT ![o] = (obj[o].pos + 1 :> t) @@ @]
        /\ Put(o, Get(obj[o], t[1], t[2], t[3]))
RealNext(o) == IF obj[o].pos + 1 >= Cardinality(WOf(obj[o])) THEN 1 ELSE 0
DoNext(o) == /\ Put(o, Next1(obj[o], RealNext(o)))
             /\ passes' = [passes EXCEPT ![o] = IF RealNext(o) = 1 THEN {} ELSE @] /\ UNCHANGED truth
Next == \E o \in 1..NObj : \/ \E g \in 1..NGrid : DoSrc(o, g) \/ DoDst(o, g)
                           \/ DoCompute(o) \/ DoReset(o) \/ DoGet(o) \/ DoNext(o)

\* ---- invariants
TypeOK == \A o \in 1..NObj : obj[o].pos >= 0 /\ (WOf(obj[o]) # {} => obj[o].pos < Cardinality(WOf(obj[o])))
\* what a correct implementation reports is allowed
Allowed == \A o \in 1..NObj :
  /\ NextOK(obj[o], RealNext(o))
  /\ WOf(obj[o]) = {} => GetOK(obj[o], -1, -1, 0)
  /\ (WOf(obj[o]) # {} /\ obj[o].pos + 1 \in DOMAIN truth[o]) =>
       LET t == truth[o][obj[o].pos + 1] IN GetOK(obj[o], t[1], t[2], t[3])
\* a weight already visited at another position, and another answer at a known position, are not
NotAllowed == \A o \in 1..NObj : \A p \in Known(obj[o]) :
  LET t == obj[o].seen[p] IN
  /\ p # obj[o].pos => ~GetOK(obj[o], t[1], t[2], t[3])
  /\ obj[o].pos \in Known(obj[o]) => ~GetOK(obj[o], -1, -1, 0)
\* once the number of weights is known a wrong status is not allowed
StatusDecided == \A o \in 1..NObj : obj[o].total >= 0 => ~NextOK(obj[o], 1 - RealNext(o))
\* a completed pass has visited every weight exactly once
PassComplete == \A o \in 1..NObj : (Complete(obj[o]) /\ obj[o].cs # 0) =>
   WeightSet(obj[o]) = WOf(obj[o]) /\ obj[o].total = Cardinality(WOf(obj[o]))
\* the weights are those of the grids of the last computation, whatever is set later
OfLastComputation == \A o \in 1..NObj : \A p \in Known(obj[o]) : obj[o].seen[p] \in WOf(obj[o])
\* setting a grid changes neither the weights nor the position, and objects are independent
Frame == [][ \A o \in 1..NObj :
   /\ (obj'[o].src # obj[o].src \/ obj'[o].dst # obj[o].dst) =>
        /\ obj'[o].cs = obj[o].cs /\ obj'[o].cd = obj[o].cd /\ obj'[o].seen = obj[o].seen /\ obj'[o].pos = obj[o].pos
   /\ obj'[o] # obj[o] => \A q \in 1..NObj \ {o} : obj'[q] = obj[q] ]_vars
=============================================================================
