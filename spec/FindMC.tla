------------------------------- MODULE FindMC -------------------------------
(* All histories of a search over a coarse abstraction of the errors: what a *)
(* correct search reports is allowed, anything else is refused.              *)
EXTENDS Find
CONSTANTS MaxE, NitMax  \* errors are 0..MaxE in units of the tolerance; iteration limits 1..NitMax
VARIABLES nit, hist, ret, inside
vars == << nit, hist, ret, inside >>
\* errors as numbers: e * tol / 2, so that 0 and 1 are below the tolerance
TolMC == RFrac(1, 8)
Err(e) == RFrac(e, 16)
H == [i \in 1..Len(hist) |-> Err(hist[i])]
Init == nit \in 1..NitMax /\ hist = <<>> /\ ret = 0 /\ inside \in BOOLEAN
\* the announced order of the decisions
Decide(h, e) == LET i == Len(h) + 1 IN
  IF i >= 3 /\ e > h[i - 1] /\ e > h[i - 2] THEN -2 ELSE IF i >= nit THEN -1 ELSE IF e < 2 THEN 1 ELSE 0
Next == /\ ret = 0 /\ UNCHANGED << nit, inside >>
        /\ IF ~inside THEN ret' = -3 /\ UNCHANGED hist
           ELSE \E e \in 0..MaxE : hist' = Append(hist, e) /\ ret' = Decide(hist, e)
Allowed == (hist # <<>> /\ inside) => StatusOK(ret, H, Len(hist), nit, TolMC)
\* an error equal to the larger of the two before it is within rounding of growth
Tie == LET i == Len(hist) IN i >= 3 /\ hist[i] >= hist[i - 1] /\ hist[i] >= hist[i - 2] /\ (hist[i] = hist[i - 1] \/ hist[i] = hist[i - 2])
Refused == (hist # <<>> /\ inside) => \A r \in {0, 1, -1, -2, -3} \ {ret} : (r = -2 /\ Tie) \/ ~StatusOK(r, H, Len(hist), nit, TolMC)
Ends == Len(hist) <= nit
TruthOne == ret = 1 => RLt(H[Len(hist)], TolMC)
\* multilinear interpolation: nodes are reproduced, affine fields are exact, the cell does not matter on its border
G == [n |-> << 2, 3 >>, c |-> << << R(0), R(1), R(5), R(7), R(3), R(2) >>, << R(1), R(4), R(1), R(5), R(9), R(2) >> >>]
ASSUME \A i \in 0..1 : \A j \in 0..2 : \A k \in 1..2 : REq(PosAt(G, << R(i), R(j) >>)[k], G.c[k][3*i + j + 1])
A == [n |-> << 3, 2, 2 >>, c |-> [k \in 1..3 |-> [m \in 1..12 |-> R(k) ++ (R(2) ** R((m-1) \div 4)) -- (R(k) ** R(((m-1) \div 2) % 2)) ++ (R(5) ** R((m-1) % 2))]]]
ASSUME \A i \in 0..8 : \A j \in 0..4 : \A k \in 1..3 :
   REq(PosAt(A, << RFrac(i, 4), RFrac(j, 4), RFrac(1, 3) >>)[k], (((R(k) ++ (R(2) ** RFrac(i, 4))) -- (R(k) ** RFrac(j, 4))) ++ RFrac(5, 3)))
=============================================================================
