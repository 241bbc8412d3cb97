------------------------------ MODULE Simplex ------------------------------
(* Lines, triangles and tetrahedra: vertices, edges, faces.                  *)
EXTENDS Integers, Sequences, FiniteSets
\* flat index lists as sequences of pairs and of triples
Pairs(e)   == [i \in 1..(Len(e) \div 2) |-> << e[2*i-1], e[2*i] >>]
Triples(f) == [i \in 1..(Len(f) \div 3) |-> << f[3*i-2], f[3*i-1], f[3*i] >>]
AllPairs(n) == {s \in SUBSET (0..n-1) : Cardinality(s) = 2}
\* each pair of distinct vertices is joined once
EdgesOK(n, ne, e) ==
  /\ Len(e) = 2 * ne /\ ne = Cardinality(AllPairs(n))
  /\ {{Pairs(e)[i][1], Pairs(e)[i][2]} : i \in 1..ne} = AllPairs(n)
Sides(t) == {<< t[1], t[2] >>, << t[2], t[3] >>, << t[3], t[1] >>}
\* the four triples, once each, every edge traversed once in each direction
FacesOK(nf, f) ==
  LET T == Triples(f) IN
  /\ Len(f) = 12 /\ nf = 4
  /\ {{T[i][1], T[i][2], T[i][3]} : i \in 1..4} = {s \in SUBSET (0..3) : Cardinality(s) = 3}
  /\ UNION {Sides(T[i]) : i \in 1..4} = {d \in (0..3) \X (0..3) : d[1] # d[2]}
\* the triangle's edges run round it
Cycle(e) == LET P == Pairs(e) IN P[1][2] = P[2][1] /\ P[2][2] = P[3][1] /\ P[3][2] = P[1][1]
=============================================================================
