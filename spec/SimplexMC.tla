----------------------------- MODULE SimplexMC -----------------------------
(* All candidate face tables: which ones satisfy the requirements, and that   *)
(* a table with consistent orientation bounds (each face's opposite vertex is  *)
(* on the same side for all faces of a real tetrahedron).                     *)
EXTENDS Simplex
VARIABLES f
Triple == {t \in (0..3) \X (0..3) \X (0..3) : t[1] # t[2] /\ t[2] # t[3] /\ t[1] # t[3]}
Init == f \in {<< a, b >> : a \in Triple, b \in Triple}
Next == Len(f) < 4 /\ \E t \in Triple : f' = Append(f, t)
FlatF == [i \in 1..12 |-> f[((i-1) \div 3) + 1][((i-1) % 3) + 1]]
V == << << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >> >>
Sub3(a, b) == << a[1] - b[1], a[2] - b[2], a[3] - b[3] >>
Det(a, b, c) == ((a[1] * ((b[2]*c[3]) - (b[3]*c[2]))) - (a[2] * ((b[1]*c[3]) - (b[3]*c[1])))) + (a[3] * ((b[1]*c[2]) - (b[2]*c[1])))
Opp(t) == CHOOSE v \in 0..3 : v \notin {t[1], t[2], t[3]}
Side(t) == LET a == V[t[1]+1] IN Det(Sub3(V[t[2]+1], a), Sub3(V[t[3]+1], a), Sub3(V[Opp(t)+1], a))
Oriented == Len(f) = 4 => (FacesOK(4, FlatF) <=>
   /\ \A i, j \in 1..4 : i # j => {f[i][1], f[i][2], f[i][3]} # {f[j][1], f[j][2], f[j][3]}
   /\ \A i, j \in 1..4 : Side(f[i]) = Side(f[j]))
=============================================================================
