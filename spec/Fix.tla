----------------------------------- MODULE Fix -----------------------------------
(* Directions in fixed point.  Lengths are in units of 1/S; angles in steps of pi/720
   (T steps to the turn) or in thousandths of a step ("mu").  Every result carries a
   known error bound, so a position that could fall on either side of a boundary is
   reported as ambiguous instead of being decided wrongly. *)
EXTENDS Integers, Sequences

S == 30000
T == 1440
Mu == 1000
RadMu == 229183             \* one radian in mu
StepS == 131                \* one step in units of 1/S, rounded up

(* S*sin of 0..360 steps, to the nearest integer; FixThm checks the table *)
SinTab == <<
  0, 131, 262, 393, 524, 654, 785, 916, 1047, 1178, 1309, 1439, 1570, 1701, 1831,
  1962, 2093, 2223, 2354, 2484, 2615, 2745, 2875, 3006, 3136, 3266, 3396, 3526, 3656, 3786,
  3916, 4046, 4175, 4305, 4434, 4564, 4693, 4822, 4951, 5080, 5209, 5338, 5467, 5596, 5724,
  5853, 5981, 6109, 6237, 6365, 6493, 6621, 6749, 6876, 7003, 7131, 7258, 7385, 7511, 7638,
  7765, 7891, 8017, 8143, 8269, 8395, 8520, 8646, 8771, 8896, 9021, 9146, 9271, 9395, 9519,
  9643, 9767, 9891, 10014, 10138, 10261, 10384, 10506, 10629, 10751, 10873, 10995, 11117, 11238, 11359,
  11481, 11601, 11722, 11842, 11962, 12082, 12202, 12322, 12441, 12560, 12679, 12797, 12915, 13033, 13151,
  13269, 13386, 13503, 13620, 13736, 13852, 13968, 14084, 14200, 14315, 14430, 14544, 14659, 14773, 14886,
  15000, 15113, 15226, 15339, 15451, 15563, 15675, 15786, 15898, 16008, 16119, 16229, 16339, 16449, 16558,
  16667, 16776, 16884, 16992, 17100, 17207, 17314, 17421, 17527, 17634, 17739, 17845, 17950, 18054, 18159,
  18263, 18367, 18470, 18573, 18675, 18778, 18880, 18981, 19082, 19183, 19284, 19384, 19483, 19583, 19682,
  19780, 19879, 19976, 20074, 20171, 20268, 20364, 20460, 20555, 20651, 20745, 20840, 20934, 21027, 21120,
  21213, 21306, 21398, 21489, 21580, 21671, 21761, 21851, 21941, 22030, 22118, 22207, 22294, 22382, 22469,
  22555, 22641, 22727, 22812, 22897, 22981, 23065, 23149, 23232, 23314, 23397, 23478, 23560, 23640, 23721,
  23801, 23880, 23959, 24038, 24116, 24193, 24271, 24347, 24423, 24499, 24575, 24649, 24724, 24798, 24871,
  24944, 25017, 25089, 25160, 25231, 25302, 25372, 25441, 25511, 25579, 25647, 25715, 25782, 25849, 25915,
  25981, 26046, 26111, 26175, 26239, 26302, 26365, 26427, 26488, 26550, 26610, 26671, 26730, 26789, 26848,
  26906, 26964, 27021, 27078, 27134, 27189, 27244, 27299, 27353, 27406, 27459, 27512, 27564, 27615, 27666,
  27716, 27766, 27816, 27864, 27913, 27960, 28007, 28054, 28100, 28146, 28191, 28235, 28279, 28323, 28366,
  28408, 28450, 28491, 28532, 28572, 28612, 28651, 28689, 28727, 28765, 28801, 28838, 28874, 28909, 28944,
  28978, 29011, 29044, 29077, 29109, 29140, 29171, 29201, 29231, 29260, 29289, 29317, 29344, 29371, 29398,
  29424, 29449, 29474, 29498, 29521, 29544, 29567, 29589, 29610, 29631, 29651, 29670, 29690, 29708, 29726,
  29743, 29760, 29776, 29792, 29807, 29822, 29836, 29849, 29862, 29874, 29886, 29897, 29908, 29918, 29927,
  29936, 29944, 29952, 29959, 29965, 29971, 29977, 29982, 29986, 29990, 29993, 29995, 29997, 29999, 30000,
  30000 >>

MaxF(a, b) == IF a > b THEN a ELSE b
Dv(n, d) == (n + (d \div 2)) \div d          \* n/d to the nearest integer, d > 0
FSin(k) == LET a == k % T IN
  IF a <= 360 THEN SinTab[a + 1]
  ELSE IF a <= 720 THEN SinTab[720 - a + 1]
  ELSE IF a <= 1080 THEN -SinTab[a - 720 + 1]
  ELSE -SinTab[T - a + 1]
FCos(k) == FSin(k + 360)

(* between the steps: sin(a+d) = sin a + cos a d, less than 0.3 off *)
FSinMu(m) == LET a == m \div Mu
             IN  FSin(a) + Dv(FCos(a) * (m % Mu), RadMu)
FCosMu(m) == FSinMu(m + 360 * Mu)

FAbs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE FRoot(_, _, _)
FRoot(n, lo, hi) == IF lo = hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN FRoot(n, m, hi) ELSE FRoot(n, lo, m - 1)
FSqrt(n) == FRoot(n, 0, 46340)

(* vectors of length S: longitude, colatitude in steps *)
Vec(phi, theta) == << Dv(FSin(theta) * FCos(phi), S), Dv(FSin(theta) * FSin(phi), S), FCos(theta) >>
RotZ(v, a) == << Dv(v[1] * FCos(a) - v[2] * FSin(a), S), Dv(v[1] * FSin(a) + v[2] * FCos(a), S), v[3] >>
RotY(v, a) == << Dv(v[1] * FCos(a) + v[3] * FSin(a), S), v[2], Dv(v[3] * FCos(a) - v[1] * FSin(a), S) >>
RotX(v, a) == << v[1], Dv(v[2] * FCos(a) - v[3] * FSin(a), S), Dv(v[2] * FSin(a) + v[3] * FCos(a), S) >>

(* longitude of a vector, in mu, and its distance from the polar axis *)
Rho(v) == FSqrt(v[1] * v[1] + v[2] * v[2])
RECURSIVE Seek(_, _, _, _)
Seek(x, y, lo, hi) == IF lo = hi THEN lo
                      ELSE LET m == (lo + hi + 1) \div 2 IN
                           IF y * FCos(m) >= x * FSin(m) THEN Seek(x, y, m, hi) ELSE Seek(x, y, lo, m - 1)
First(x, y) == IF x = 0 /\ y = 0 THEN 0
               ELSE LET a == Seek(x, y, 0, 359)
                        cross == (y * FCos(a) - x * FSin(a)) \div 10
                        dot == MaxF((x * FCos(a) + y * FSin(a)) \div S, 1)
                    IN  a * Mu + (cross * 764) \div (10 * dot)    \* RadMu/S = 7.64
LonMu(v) == LET q == First(FAbs(v[1]), FAbs(v[2])) IN
  IF v[1] >= 0 THEN (IF v[2] >= 0 THEN q ELSE (T * Mu - q) % (T * Mu))
  ELSE (IF v[2] >= 0 THEN 720 * Mu - q ELSE 720 * Mu + q)
================================================================================
