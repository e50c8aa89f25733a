--------------------------------- MODULE Regions ---------------------------------
(* Regions to fill with uniform random points (properties R01, R02), cut into cells of
   equal length, area, volume or solid angle.

   A coordinate is measured by x, x^2 (radius in the plane), x^3 (radius in space) or by
   the height z = cos(theta): points are uniform if and only if these measures are
   uniform and independent.  Angles phi are in units of pi. *)
EXTENDS Heal, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
Ax(m, lo, hi) == [m |-> m, lo |-> lo, hi |-> hi]
Line(lo, hi) == Ax("id", lo, hi)
Spans == {<<Zero, One>>, <<<<-3, 1>>, <<5, 2>>>>, <<<<100, 1>>, <<101, 1>>>>, <<<<-1, 1000>>, <<1, 500>>>>}
Radii == {<<Zero, One>>, <<Zero, <<7, 2>>>>, <<<<1, 2>>, <<2, 1>>>>, <<<<399, 1>>, <<400, 1>>>>, <<<<1, 10>>, <<1, 1>>>>}
Turns == {<<Zero, Q(2)>>, <<<<1, 2>>, <<3, 4>>>>, <<<<3, 2>>, <<2, 1>>>>, <<Zero, <<1, 90>>>>} \cup
         (IF Thorough THEN {<<<<1, 3>>, <<5, 3>>>>, <<One, Q(2)>>} ELSE {})
Heights == {<<One, Q(-1)>>, <<One, <<9, 10>>>>, <<One, <<9999, 10000>>>>, <<<<101, 1000>>, <<1, 10>>>>, <<<<1, 2>>, <<-4, 5>>>>, <<<<-1, 3>>, Q(-1)>>} \cup
         (IF Thorough THEN {<<Zero, <<-1, 100>>>>, <<One, Zero>>} ELSE {})
Boxes == {[kind |-> "randoms_1d", ax |-> <<Line(a[1], a[2])>>] : a \in Spans}
    \cup {[kind |-> "randoms_2d", ax |-> <<Line(a[1], a[2]), Line(b[1], b[2])>>] : a \in Spans, b \in Spans}
    \cup {[kind |-> "randoms_3d", ax |-> <<Line(a[1], a[2]), Line(b[1], b[2]), Line(d[1], d[2])>>] :
              a \in Spans, b \in Spans, d \in (IF Thorough THEN Spans ELSE {<<Zero, One>>, <<<<-7, 2>>, <<-3, 1>>>>})}
Rounds == {[kind |-> "randoms_polar", ax |-> <<Ax("sq", r[1], r[2]), Line(t[1], t[2])>>] : r \in Radii, t \in Turns}
    \cup {[kind |-> "randoms_sphere_r", ax |-> <<Ax("cube", r[1], r[2])>>] : r \in Radii}
    \cup {[kind |-> "randoms_usphere", ax |-> <<Line(t[1], t[2]), Ax("cos", z[1], z[2])>>] : t \in Turns, z \in Heights}
    \cup {[kind |-> "randoms_sphere", ax |-> <<Ax("cube", r[1], r[2]), Line(t[1], t[2]), Ax("cos", z[1], z[2])>>] :
              r \in Radii, t \in Turns, z \in Heights}

Maps == IF Thorough THEN {1, 2, 3, 4, 8, 31, 256, 1000, 4096} ELSE {1, 2, 5, 64, 4096}
Some(n) == {<<r, q>> \in {1, 2, n - 1, n, n + 1, 2 * n, 3 * n, 3 * n + 1, 4 * n - 2, 4 * n - 1}
                         \X {1, 2, n, n + 1, 2 * n, 3 * n + 1, 4 * n} : r >= 1 /\ r <= NRings(n) /\ q <= RingLen(n, r)}
Pixels(n) == IF n <= 2 THEN {<<r, q>> \in (1..NRings(n)) \X (1..(4 * n)) : q <= RingLen(n, r)} ELSE Some(n)

VARIABLES region, axis, edges
vars == <<region, axis, edges>>
Init == /\ region \in Boxes \cup Rounds \cup UNION {{[kind |-> "pixel", N |-> n, p |-> p] : p \in Pixels(n)} : n \in Maps}
        /\ axis = 0 /\ edges = <<>>

Parts(d) == CASE d = 1 -> 32 [] d = 2 -> 8 [] d = 3 -> 4
Measure(m, x) == CASE m = "sq" -> RSq(x) [] m = "cube" -> RMul(x, RSq(x)) [] OTHER -> x
Cut(a, n) == LET lo == Measure(a.m, a.lo) hi == Measure(a.m, a.hi)
             IN [k \in 1..(n + 1) |-> RAdd(lo, RMul(Norm(k - 1, n), RSub(hi, lo)))]
Divide == /\ region.kind # "pixel" /\ axis < Len(region.ax)
          /\ edges' = Append(edges, Cut(region.ax[axis + 1], Parts(Len(region.ax))))
          /\ axis' = axis + 1 /\ UNCHANGED region
Next == Divide
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Equal == \A e \in {edges[k] : k \in 1..Len(edges)} : \A k \in 2..(Len(e) - 1) : RSub(e[k + 1], e[k]) = RSub(e[k], e[k - 1])
(* cutting a pixel's diamond into m x m parts gives its nested pixels of Nside m*N: the
   star indices of the parts are m times those of the pixel plus 0..m-1 *)
Nested == region.kind = "pixel" => LET n == region.N
                                       s == Star(n, region.p[1], region.p[2])
                                       x == CentreX(n, region.p[1], region.p[2])
                                       y == CentreY(n, region.p[1])
          IN /\ RAdd(RSub(RMul(Q(2 * n), x), RMul(Q(2 * n), y)), Norm(n, 2)) = Norm(2 * s[1] + 1, 2)
             /\ RAdd(RAdd(RMul(Q(2 * n), x), RMul(Q(2 * n), y)), Norm(n, 2)) = Norm(2 * s[2] + 1, 2)
Emit == /\ (region.kind # "pixel" /\ axis = Len(region.ax)) => PrintT("@@" \o ToJson([kind |-> region.kind, ax |-> region.ax, edges |-> edges]))
        /\ region.kind = "pixel" => PrintT("@@" \o ToJson([kind |-> "pixel", N |-> region.N,
             p |-> PixOf(region.N, region.p[1], region.p[2]), s |-> Star(region.N, region.p[1], region.p[2])]))
================================================================================
