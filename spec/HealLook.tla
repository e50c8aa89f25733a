--------------------------------- MODULE HealLook ---------------------------------
(* The HEALPix pixels a direction can fall into when it is known up to a distance
   dist (units of 1/S).  A direction is carried to the diamond coordinates of the
   projection plane, where pixels are unit squares; the map stretches distances by at
   most 2.36 * 2N/pi, which widens the direction to a square.  Where the polar facets
   meet, the direction is also carried into the facets across the seam. *)
EXTENDS Fix, Heal

Unit == 360000              \* one pixel side in the diamond coordinates
Widen(N, dist) == 18 * N * dist

(* the pixel with diamond indices (u, v), or -1 where the plane is empty *)
StarPix(N, u, v) ==
  LET i == 2 * N + u - v
      jj == (u + v + 1 - N) % (8 * N)
  IN  IF i < 1 \/ i > 4 * N - 1 THEN -1
      ELSE IF North(N, i) \/ South(N, i) THEN
        LET c == CapRing(N, i)
            Pos(q) == (jj - (N - c) * (2 * q + 1) + 1) % (8 * N)      \* twice j, modulo the turn
            hit == {q \in 0..3 : Pos(q) % 2 = 0 /\ Pos(q) \div 2 >= q * c + 1 /\ Pos(q) \div 2 <= (q + 1) * c}
        IN  IF hit = {} THEN -1 ELSE LET q == CHOOSE x \in hit : TRUE IN PixOf(N, i, Pos(q) \div 2)
      ELSE LET jd == jj + 1 + ((i + N) % 2)
               j == ((jd \div 2 + 4 * N - 1) % (4 * N)) + 1
           IN  IF jd % 2 # 0 THEN -1 ELSE PixOf(N, i, j)

(* N times plane coordinates in units where a pixel side is Unit, then the corner-based
   diamond coordinates *)
UV(N, x, y) == << N * x - y + N * (Unit \div 2), N * x + y + N * (Unit \div 2) >>
BeltUV(N, lon, z) == UV(N, lon, N * z * 9)
CapUV(N, q, lon, z, rho) ==
  LET mid == (2 * q + 1) * 180 * Mu
      g == FSqrt(((3 * S * 10000) \div (S + FAbs(z))) * 10000)
      t == Dv(rho * g, 10000)
      x == mid + 10 * Dv(((lon - mid) \div 10) * t, S)
      id == N * 6 * (2 * S - t)
  IN  UV(N, x, IF z >= 0 THEN id ELSE -id)
PlaneUV(N, q, lon, z, rho) == IF 3 * FAbs(z) <= 2 * S THEN BeltUV(N, lon, z) ELSE CapUV(N, q, lon, z, rho)

Square(N, uv, m) == {StarPix(N, u, v) : u \in ((uv[1] - m) \div Unit)..((uv[1] + m) \div Unit),
                                        v \in ((uv[2] - m) \div Unit)..((uv[2] + m) \div Unit)} \ {-1}

(* how far the longitude lies outside quarter q, and the nearest longitude inside it *)
Outside(q, lon) == LET d == ((lon - (2 * q + 1) * 180 * Mu + 720 * Mu) % (T * Mu)) - 720 * Mu
                   IN  IF FAbs(d) <= 180 * Mu THEN 0 ELSE FAbs(d) - 180 * Mu
Inside(q, lon) == LET mid == (2 * q + 1) * 180 * Mu
                      d == ((lon - mid + 720 * Mu) % (T * Mu)) - 720 * Mu
                  IN  IF d > 180 * Mu THEN mid + 180 * Mu ELSE IF d < -180 * Mu THEN mid - 180 * Mu ELSE mid + d

(* a quarter at an angle a across the pole is at least rho*sin(a) away, and rho beyond a right angle *)
Least2(a, b) == IF a < b THEN a ELSE b
Look(N, v, dist) ==
  LET lon == LonMu(v)
      rho == Rho(v)
      m == Widen(N, dist)
  IN  IF 3 * (FAbs(v[3]) + dist) < 2 * S THEN Square(N, BeltUV(N, lon, v[3]), m)
      ELSE UNION {LET out == Outside(q, lon) IN
                  IF out = 0 THEN Square(N, PlaneUV(N, q, Inside(q, lon), v[3], rho), m)
                  ELSE IF (Least2(out, 360 * Mu) \div 100) * rho > (dist + 1) * 3600 THEN {}
                  ELSE Square(N, PlaneUV(N, q, Inside(q, lon), v[3], rho), 3 * m) : q \in 0..3}
(* the direction of an exact longitude (units of pi) and height *)
Dir(lon, z) == LET m == (lon[1] * 720 * Mu) \div lon[2]
                   zz == (z[1] * S) \div z[2]
                   r == FSqrt(S * S - zz * zz)
               IN  << Dv(r * FCosMu(m), S), Dv(r * FSinMu(m), S), zz >>
(* the centre of a pixel, the same without fractions *)
CentreDir(N, i, j) ==
  LET cap == North(N, i) \/ South(N, i)
      c == CapRing(N, i)
      m == IF cap THEN (180 * Mu * (2 * j - 1)) \div c ELSE (180 * Mu * (2 * j - 1 - ((i + N) % 2))) \div N
      w == S * (3 * N * N - c * c)
      zz == IF cap THEN (IF North(N, i) THEN w ELSE -w) \div (3 * N * N) ELSE (S * (4 * N - 2 * i)) \div (3 * N)
      r == FSqrt(S * S - zz * zz)
  IN  << Dv(r * FCosMu(m), S), Dv(r * FSinMu(m), S), zz >>
(* which of its coordinates are free of error: 0 on the meridians of the axes, fractions of S *)
KnownDir(N, i, j) ==
  LET cap == North(N, i) \/ South(N, i)
      c == CapRing(N, i)
      n == IF cap THEN 180 * Mu * (2 * j - 1) ELSE 180 * Mu * (2 * j - 1 - ((i + N) % 2))
      d == IF cap THEN c ELSE N
      meridian == n % (360 * Mu * d) = 0
      equator == i = 2 * N
      OnAxis(q) == (n \div (360 * Mu * d)) % 2 = q
  IN  << meridian /\ (equator \/ OnAxis(1)), meridian /\ (equator \/ OnAxis(0)),
         IF cap THEN (S * (3 * N * N - c * c)) % (3 * N * N) = 0 ELSE (S * (4 * N - 2 * i)) % (3 * N) = 0 >>
===================================================================================
