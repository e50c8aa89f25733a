-------------------------------- MODULE HealProj --------------------------------
(* The HEALPix projection of the sphere onto the plane and back (property C04).

   Angles and plane coordinates are exact multiples of pi.  A place on the sky is
   its longitude and either its height z (belt, |z| <= 2/3) or the cap parameter t
   with |z| = 1 - t^2/3, 0 <= t <= 1; both descriptions meet at z = 2/3, t = 1. *)
EXTENDS Rat, TLC, Json, IOUtils

Tier == IOEnv.TIER
LonDen == IF Tier = "thorough" THEN 60 ELSE 24
Lons == {Norm(k, LonDen) : k \in 0..(2 * LonDen - 1)} \cup {<<1, 97>>, <<150, 97>>, <<193, 97>>}
Zs == {Norm(k, 12) : k \in -8..8} \cup {<<5, 31>>, <<-19, 29>>}
Ts == {Norm(k, 12) : k \in 0..12} \cup {<<1, 100>>, <<97, 100>>, <<13, 31>>}

VARIABLES sky,    \* [lon, belt, s, v]: belt place at height v, or cap place of side s at parameter v
          plane,  \* <<x, y>> in units of pi, <<>> before
          step
vars == <<sky, plane, step>>

(* close to a pole *)
Close == {Norm(1, 4096), Norm(1, 262144), Norm(1, 16777216)}
Places == [lon : Lons, belt : {TRUE}, s : {1}, v : Zs] \cup [lon : Lons, belt : {FALSE}, s : {-1, 1}, v : Ts]
          \cup [lon : {Norm(k, 8) : k \in 0..15}, belt : {FALSE}, s : {-1, 1}, v : Close]
Init == sky \in Places /\ plane = <<>> /\ step = 0

Height(p) == IF p.belt THEN p.v ELSE RMul(Q(p.s), RSub(One, RMul(<<1, 3>>, RSq(p.v))))
Quarter == <<1, 4>>
(* the four gores of a cap meet at the pole; each is folded towards its middle line *)
Gore(lon) == RFloor(RMul(Q(2), lon))
GoreMid(lon) == RAdd(Norm(Gore(lon), 2), Quarter)
Project == /\ step = 0
           /\ plane' = IF sky.belt THEN <<sky.lon, RMul(<<3, 8>>, sky.v)>>
                       ELSE <<RAdd(GoreMid(sky.lon), RMul(sky.v, RSub(sky.lon, GoreMid(sky.lon)))),
                              RMul(Q(sky.s), RMul(Quarter, RSub(Q(2), sky.v)))>>
           /\ step' = 1 /\ UNCHANGED sky
(* back: from the plane coordinates alone *)
Unproject(pl) ==
  IF RLe(RAbs(pl[2]), Quarter) THEN [lon |-> pl[1], belt |-> TRUE, s |-> 1, v |-> RMul(<<8, 3>>, pl[2])]
  ELSE LET t == RSub(Q(2), RMul(Q(4), RAbs(pl[2])))
           m == GoreMid(pl[1])
       IN  [lon |-> IF t = Zero THEN Zero ELSE RAdd(m, RDiv(RSub(pl[1], m), t)),
            belt |-> FALSE, s |-> RSign(pl[2]), v |-> t]
Back == step = 1 /\ step' = 2 /\ sky' = Unproject(plane) /\ UNCHANGED plane
Next == Project \/ Back
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------------
AtPole(p) == ~p.belt /\ p.v = Zero
Same(p, q) == /\ IF p.belt = q.belt THEN p.v = q.v /\ p.s = q.s ELSE Height(p) = Height(q)
              /\ AtPole(p) \/ p.lon = q.lon
RoundTrip == [][step = 1 => Same(sky, sky')]_vars
(* the image stays inside the belt or the four triangles on either side of it *)
InPlane == step > 0 => /\ RLe(RAbs(plane[2]), Half)
                       /\ RLt(Quarter, RAbs(plane[2])) =>
                            RLe(RAbs(RSub(plane[1], GoreMid(plane[1]))), RSub(Half, RAbs(plane[2])))
(* equal areas: dz/dy * dlon/dx is the same 8/(3 pi) everywhere; in the caps
   dz/dt = -2t/3, dy/dt = -pi/4, dx/dlon = t, so it is (8t/(3 pi)) / t *)
EqualArea == \A t \in Ts \ {Zero} : RDiv(RDiv(RMul(<<-2, 3>>, t), <<-1, 4>>), t) = <<8, 3>>
ASSUME EqualArea
Seam(p) == ~p.belt /\ RMul(Q(2), p.lon)[2] = 1
Emit == step = 1 => PrintT("@@" \o ToJson([lon |-> sky.lon, belt |-> sky.belt, s |-> sky.s, v |-> sky.v, x |-> plane[1], y |-> plane[2],
                                           pole |-> AtPole(sky), seam |-> Seam(sky)]))
================================================================================
