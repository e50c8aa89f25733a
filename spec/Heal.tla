---------------------------------- MODULE Heal ----------------------------------
(* The HEALPix tessellation: rings, pixel numbers, centres on the sky and in the
   projection plane, pixel corners, and the pixel holding a point of the plane.
   Angles and plane coordinates are exact, in units of pi. *)
EXTENDS Rat

(* ---- rings, from the north ---- *)
NRings(N) == 4 * N - 1
RingLen(N, i) == IF i < N THEN 4 * i ELSE IF i <= 3 * N THEN 4 * N ELSE 4 * (4 * N - i)
RingStart(N, i) == IF i <= N THEN 2 * i * (i - 1)
                   ELSE IF i <= 3 * N THEN 2 * N * (N - 1) + 4 * N * (i - N)
                   ELSE 12 * N * N - 2 * (4 * N - i) * (4 * N - i + 1)
NPix(N) == 12 * N * N
PixOf(N, i, j) == RingStart(N, i) + j - 1

(* ---- standard centres on the sky: longitude (units of pi) and height z ---- *)
North(N, i) == i < N
South(N, i) == i > 3 * N
CapRing(N, i) == IF North(N, i) THEN i ELSE 4 * N - i
CentreZ(N, i) == IF North(N, i) \/ South(N, i)
                 THEN RMul(Q(IF North(N, i) THEN 1 ELSE -1), RSub(One, RMul(<<1, 3>>, RSq(Norm(CapRing(N, i), N)))))
                 ELSE RSub(<<4, 3>>, Norm(2 * i, 3 * N))
CentreLon(N, i, j) == IF North(N, i) \/ South(N, i) THEN Norm(2 * j - 1, 4 * CapRing(N, i))
                      ELSE Norm(2 * j - 1 - ((i + N) % 2), 4 * N)

(* ---- the projection (see HealProj) of those centres ---- *)
Quarter == <<1, 4>>
Gore(lon) == RFloor(RMul(Q(2), lon))
GoreMid(lon) == RAdd(Norm(Gore(lon), 2), Quarter)
CentreX(N, i, j) == LET lon == CentreLon(N, i, j) IN
  IF North(N, i) \/ South(N, i)
  THEN RAdd(GoreMid(lon), RMul(Norm(CapRing(N, i), N), RSub(lon, GoreMid(lon))))
  ELSE lon
CentreY(N, i) == IF North(N, i) \/ South(N, i)
  THEN RMul(Q(IF North(N, i) THEN 1 ELSE -1), RMul(Quarter, RSub(Q(2), Norm(CapRing(N, i), N))))
  ELSE RMul(<<3, 8>>, CentreZ(N, i))

(* ---- indices: units of pi/(2N), and the diamond indices ---- *)
IDash(N, i) == RMul(Q(2 * N), CentreY(N, i))
JDash(N, i, j) == RMul(Q(2 * N), CentreX(N, i, j))
IStarQ(N, i, j) == RSub(RAdd(RSub(JDash(N, i, j), IDash(N, i)), Norm(N, 2)), Half)
JStarQ(N, i, j) == RSub(RAdd(RAdd(JDash(N, i, j), IDash(N, i)), Norm(N, 2)), Half)
Star(N, i, j) == <<IStarQ(N, i, j)[1], JStarQ(N, i, j)[1]>>

(* ---- corners: half a diagonal from the centre along x and y ---- *)
Delta(N) == Norm(1, 4 * N)
PlaneCorners(N, i, j) == LET x == CentreX(N, i, j)
                             y == CentreY(N, i)
                             d == Delta(N)
  IN << <<RSub(x, d), y>>, <<x, RAdd(y, d)>>, <<RAdd(x, d), y>>, <<x, RSub(y, d)>> >>
Mod2(q) == RSub(q, RMul(Q(2), Q(RFloor(RMul(Half, q)))))
(* the point of the sky at a plane point seen from inside the gore m (its middle) *)
SkyPoint(pt, m) ==
  IF RLe(RAbs(pt[2]), Quarter) THEN <<pt[2], Mod2(pt[1])>>
  ELSE LET t == RSub(Q(2), RMul(Q(4), RAbs(pt[2]))) IN
       IF t = Zero THEN <<pt[2], Zero>>
       ELSE <<pt[2], Mod2(RAdd(m, RDiv(RSub(pt[1], m), t)))>>
Corners(N, i, j) == LET m == GoreMid(CentreLon(N, i, j))
                        c == PlaneCorners(N, i, j)
                    IN  {SkyPoint(c[k], m) : k \in 1..4}
================================================================================
