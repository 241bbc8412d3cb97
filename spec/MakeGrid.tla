----------------------------- MODULE MakeGrid ------------------------------
(* The grids the library can create: what coordinates each node must have.   *)
(* n = <<n1, n2>> nodes, node (i, j) (from 0) at position i*n2 + j.           *)
EXTENDS Rat, TLC

NI(n, k) == (k - 1) \div n[2]
NJ(n, k) == (k - 1) % n[2]
Count2(n) == n[1] * n[2]
\* of a large grid only some rows and columns are looked at: node k of those in rows rs and columns cs is in row RI, column CJ
All(n) == TLCEval([i \in 1..n |-> i - 1])
RI(rs, cs, k) == rs[((k - 1) \div Len(cs)) + 1]
CJ(rs, cs, k) == cs[((k - 1) % Len(cs)) + 1]
Place(s) == TLCEval([v \in {s[i] : i \in 1..Len(s)} |-> CHOOSE i \in 1..Len(s) : s[i] = v])
Even(lo, hi, i, m) == lo ++ (RFrac(i, m - 1) ** (hi -- lo))       \* i-th of m evenly spaced numbers
Tiny == RFrac(1, 1000000000) ** RFrac(1, 100)
AllFinite(c) == \A i \in 1..Len(c) : RFinite(c[i])
Rad(deg) == (deg ** RPi) // R(180)
\* sine and cosine of some of m evenly spaced angles lo .. hi (degrees), computed once
Sines(lo, hi, m, s)   == TLCEval([i \in {s[j] : j \in 1..Len(s)} |-> RSin(Rad(Even(lo, hi, i, m)))])
Cosines(lo, hi, m, s) == TLCEval([i \in {s[j] : j \in 1..Len(s)} |-> RCos(Rad(Even(lo, hi, i, m)))])
Near(a, b, tol) == RClose(R(a), b, tol)

\* ------------------------------------------------------------- rectangular --
RectOK(n, rs, cs, lo, hi, x, y) ==
  LET s1 == Tiny ** RMax(RAbs(lo[1]), RAbs(hi[1]))  s2 == Tiny ** RMax(RAbs(lo[2]), RAbs(hi[2]))
      m == Len(rs) * Len(cs) IN
  /\ Len(x) = m /\ Len(y) = m /\ AllFinite(x) /\ AllFinite(y)
  /\ \A k \in 1..m : /\ Near(x[k], Even(lo[1], hi[1], RI(rs, cs, k), n[1]), s1)
                     /\ Near(y[k], Even(lo[2], hi[2], CJ(rs, cs, k), n[2]), s2)
\* ------------------------------------------------------------------- polar --
PolarOK(n, rs, cs, c, r, x, y) ==
  LET s == Tiny ** (RAbs(r) ++ RMax(RAbs(c[1]), RAbs(c[2])))
      sn == Sines(R(0), R(360), n[2], cs)  cn == Cosines(R(0), R(360), n[2], cs)
      m == Len(rs) * Len(cs) IN
  /\ Len(x) = m /\ Len(y) = m /\ AllFinite(x) /\ AllFinite(y)
  /\ \A k \in 1..m :
       LET rho == Even(R(0), r, RI(rs, cs, k), n[1]) IN
       /\ Near(x[k], c[1] ++ (rho ** cn[CJ(rs, cs, k)]), s)
       /\ Near(y[k], c[2] ++ (rho ** sn[CJ(rs, cs, k)]), s)
\* ------------------------------------------------------------ rotated pole --
\* position on the unit sphere from latitude and longitude in degrees
OnSphere(lat, lon) == LET a == Rad(R(lat))  b == Rad(R(lon)) IN << RCos(a) ** RCos(b), RCos(a) ** RSin(b), RSin(a) >>
SphereTol == RFrac(1, 10000000)
InRange(lat, lon) == /\ RFinite(lat) /\ RFinite(lon)
                     /\ RLeq(RAbs(R(lat)), R(90) ++ RFrac(1, 1000000000)) /\ RLeq(RAbs(R(lon)), R(180) ++ RFrac(1, 1000000000))
\* rotation about the y axis, taking the north pole towards +x, then about the z axis, taking +x towards -y
RotY(al, v) == LET c == RCos(Rad(al))  s == RSin(Rad(al)) IN << (c ** v[1]) ++ (s ** v[3]), v[2], (c ** v[3]) -- (s ** v[1]) >>
RotZ(be, v) == LET c == RCos(Rad(be))  s == RSin(Rad(be)) IN << (c ** v[1]) ++ (s ** v[2]), (c ** v[2]) -- (s ** v[1]), v[3] >>
RotOK(n, rs, cs, dlat, dlon, lat, lon) ==
  /\ Len(lat) = Len(rs) * Len(cs) /\ Len(lon) = Len(lat)
  /\ \A k \in 1..Len(lat) : InRange(lat[k], lon[k])
  /\ LET sl == Sines(R(-90), R(90), n[1], rs)  cl == Cosines(R(-90), R(90), n[1], rs)
         sm == Sines(R(-180), R(180), n[2], cs)  cm == Cosines(R(-180), R(180), n[2], cs) IN
     \A k \in 1..Len(lat) :
       LET i == RI(rs, cs, k)  j == CJ(rs, cs, k)
           v == RotZ(dlon, RotY(dlat, << cl[i] ** cm[j], cl[i] ** sm[j], sl[i] >>))
           p == OnSphere(lat[k], lon[k]) IN
       \A d \in 1..3 : RClose(p[d], v[d], SphereTol)
\* ---------------------------------------------------------------- tripolar --
\* nlat rows of nlon nodes; cap: the first row of the cap; the dimensions are reported longitudes first
Same3(p, q) == \A d \in 1..3 : RClose(p[d], q[d], RFrac(1, 1000000))
\* the columns looked at include the first and with each the one it is folded onto, the rows that of the cap and the last
TripolarOK(nlat, nlon, cap, rs, cs, dims, ext, lat, lon) ==
  LET pr == Place(rs)
      pc0 == Place(cs)
      Rows == DOMAIN pr
      Cols == DOMAIN pc0
      at(j, i) == ((pr[j] - 1) * Len(cs)) + pc0[i]
      rowLat(j) == Even(R(-90), R(90), j, nlat)
      deg == RFrac(1, 1000000000)
      m == nlat - cap - 1                                     \* steps in the cap
      lp == Rad(R(180) -- (RFrac(180 * cap, nlat - 1)))       \* colatitude of the cap's perimeter
      clp == RCos(lp)
      \* coordinates in the cap: two halves joined at the fold
      half(i) == i < nlon \div 2
      pc(i) == R(-90) ++ (RFrac(IF half(i) THEN i ELSE nlon - 1 - i, nlon - 1) ** R(360))
      elc(j, i) == R(IF half(i) THEN 1 ELSE -1) ** (R(90) -- (RFrac(j - cap, m) ** R(90)))
      sp == TLCEval([i \in Cols |-> RSin(Rad(pc(i)))])  cp == TLCEval([i \in Cols |-> RCos(Rad(pc(i)))])
      CapNode(j, i) ==
        LET e == elc(j, i)
            c == RCos(Rad(e)) ** cp[i]
            w == RSin(Rad(e)) ** cp[i]
            z == RSin(Rad(R(lat[at(j, i)])))
            lo == Rad(R(lon[at(j, i)]))
            x == RCos(lo)  y == RSin(lo) IN
        \* tan(colatitude/2) = tan(lp/2) tan(acos(c)/2), and the longitude points to (tan pc, -sin elc)
        /\ RClose((R(1) ++ clp) ** ((R(1) -- z) ** (R(1) ++ c)), (R(1) -- clp) ** ((R(1) ++ z) ** (R(1) -- c)), RFrac(1, 100000000))
        /\ RClose(x ** w, RNeg(y ** sp[i]), RFrac(1, 100000000))
        /\ RLeq(RFrac(-1, 100000000), (x ** sp[i]) -- (y ** w))
  IN
  /\ dims = << nlon, nlat >> /\ Len(lat) = Len(rs) * Len(cs) /\ Len(lon) = Len(lat)
  /\ InRange(ext[1], ext[3]) /\ InRange(ext[2], ext[4])
  /\ \A k \in 1..Len(lat) : InRange(lat[k], lon[k])
  /\ \A j \in Rows \cap (0..cap-1) : \A i \in Cols : /\ Near(lat[at(j, i)], rowLat(j), deg)
                                              /\ Near(lon[at(j, i)], Even(R(-180), R(180), i, nlon), deg)
  /\ \A i \in Cols : Near(lat[at(cap, i)], rowLat(cap), deg)
  /\ \A j \in Rows \cap (cap..nlat-1) : \A i \in Cols : RLeq(rowLat(cap) -- deg, R(lat[at(j, i)]))
  /\ \A i \in Cols : Same3(OnSphere(lat[at(nlat-1, i)], lon[at(nlat-1, i)]), OnSphere(lat[at(nlat-1, nlon-1-i)], lon[at(nlat-1, nlon-1-i)]))
  /\ \A j \in Rows : Same3(OnSphere(lat[at(j, 0)], lon[at(j, 0)]), OnSphere(lat[at(j, nlon-1)], lon[at(j, nlon-1)]))
  /\ \A j \in Rows \cap (cap..nlat-1) : \A i \in Cols : CapNode(j, i)
=============================================================================
