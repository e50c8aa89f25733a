-------------------------------- MODULE HealLookThm --------------------------------
(* Checks of the lookup: a pixel's star leads back to the pixel; the pixel's centre and
   four points just inside its corners are found in it and nowhere else. *)
EXTENDS HealLook, TLC, FiniteSets
CONSTANT Sides
VARIABLES N, i, j
vars == <<N, i, j>>
Init == N \in Sides /\ i \in 1..NRings(N) /\ j \in 1..RingLen(N, i)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------------
P == PixOf(N, i, j)
St == Star(N, i, j)
Back == StarPix(N, St[1], St[2]) = P
Around == StarPix(N, St[1] + 4 * N, St[2] + 4 * N) = P
Centre == Dir(CentreLon(N, i, j), CentreZ(N, i))
Plain == CentreDir(N, i, j) = Centre
AtCentre == Look(N, Centre, 12) = {P}
(* every pixel within reach of a wide look contains this one and only near ones *)
Wide == P \in Look(N, Centre, 3000)
(* the four corners: this pixel must be a candidate there *)
CornerDir(c) == LET y == c[1]  lon == c[2] IN
  IF RLe(RAbs(y), Quarter) THEN Dir(lon, RMul(<<8, 3>>, y))
  ELSE LET t == RSub(Q(2), RMul(Q(4), RAbs(y))) IN
       Dir(lon, RMul(Q(RSign(y)), RSub(One, RMul(<<1, 3>>, RSq(t)))))
AtCorners == \A c \in Corners(N, i, j) : P \in Look(N, CornerDir(c), 14) /\ Cardinality(Look(N, CornerDir(c), 14)) \in {3, 4}
(* a look as wide as the way from this pixel's centre to another pixel's corner sees that pixel *)
Way(a, b) == 4 * (FSqrt(((a[1] - b[1]) \div 4) * ((a[1] - b[1]) \div 4) + ((a[2] - b[2]) \div 4) * ((a[2] - b[2]) \div 4)
                        + ((a[3] - b[3]) \div 4) * ((a[3] - b[3]) \div 4)) + 2)
Sees == N = 1 \/ (N = 3 /\ i <= 2) => \A r \in 1..NRings(N) : \A q \in 1..RingLen(N, r) : \A c \in Corners(N, r, q) :
          LET w == Way(Centre, CornerDir(c)) IN w < 10000 => PixOf(N, r, q) \in Look(N, Centre, w + 14)
=====================================================================================
