-------------------------------- MODULE PointOfView --------------------------------
(* The perspective view of a camera (property D06).  A point seen from the camera is a
   vector of integers over the common denominator den.  It is brought into the camera's
   frame by three rotations whose angles have rational sines and cosines, projected, and
   then brought back.  An angle is <<c, s, h>>: cosine c/h, sine s/h.
   Frame: first axis along the view, second to its left, third upwards. *)
EXTENDS Rat, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, p, den, step, flat
vars == <<i, p, den, step, flat>>
C == Given[i]
Start == [n \in 1..3 |-> C.x[n] - C.camera[n]]
Init == i \in 1..Len(Given) /\ p = Start /\ den = 1 /\ step = "seen" /\ flat = <<>>
---------------------------------------------------------------------------------
(* where the camera looks, as longitude and colatitude *)
V == [n \in 1..3 |-> C.point[n] - C.camera[n]]
Sq(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
Flat == ISqrt(V[1] * V[1] + V[2] * V[2])
Long == ISqrt(Sq(V))
Small(a) == LET g == Gcd(Abs(a[1]), Gcd(Abs(a[2]), a[3])) IN <<a[1] \div g, a[2] \div g, a[3] \div g>>
Lon == IF Flat = 0 THEN <<1, 0, 1>> ELSE Small(<<V[1], V[2], Flat>>)
Col == Small(<<V[3], Flat, Long>>)
(* rotations: about the upright axis by -a; tipping colatitude a down to the equator; about the view by a *)
Turn(a, q) == <<a[1] * q[1] + a[2] * q[2], a[1] * q[2] - a[2] * q[1], a[3] * q[3]>>
Tip(a, q) == <<a[2] * q[1] + a[1] * q[3], a[3] * q[2], a[2] * q[3] - a[1] * q[1]>>
Roll(a, q) == <<a[3] * q[1], a[1] * q[2] - a[2] * q[3], a[2] * q[2] + a[1] * q[3]>>
Back(a) == <<a[1], -a[2], a[3]>>
Untip(a, q) == <<a[2] * q[1] - a[1] * q[3], a[3] * q[2], a[1] * q[1] + a[2] * q[3]>>
(* back to lowest terms, so that numbers stay small *)
Reduced(q, d) == LET g == Gcd(d, Gcd(Abs(q[1]), Gcd(Abs(q[2]), Abs(q[3])))) IN <<<<q[1] \div g, q[2] \div g, q[3] \div g>>, d \div g>>
Go(from, to, q, d) == /\ step = from /\ step' = to
                      /\ LET r == Reduced(q, d) IN p' = r[1] /\ den' = r[2]
                      /\ UNCHANGED i
Face == Go("seen", "faced", Turn(Lon, p), den * Lon[3]) /\ UNCHANGED flat
Level == Go("faced", "level", Tip(Col, p), den * Col[3]) /\ UNCHANGED flat
Spin == Go("level", "framed", Roll(C.spin, p), den * C.spin[3]) /\ UNCHANGED flat
(* only the ratios to the depth, and the distance, are seen *)
Project == step = "framed" /\ step' = "drawn" /\ flat' = p /\ UNCHANGED <<i, p, den>>
Unspin == Go("drawn", "unspun", Roll(Back(C.spin), p), den * C.spin[3]) /\ UNCHANGED flat
Raise == Go("unspun", "raised", Untip(Col, p), den * Col[3]) /\ UNCHANGED flat
Unface == Go("raised", "home", Turn(Back(Lon), p), den * Lon[3]) /\ UNCHANGED flat
Next == Face \/ Level \/ Spin \/ Project \/ Unspin \/ Raise \/ Unface
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------------
(* theorems: the angles are angles; distances never change; the way back leads home; the
   point looked at is straight ahead *)
Unit(a) == a[1] * a[1] + a[2] * a[2] = a[3] * a[3]
Angles == Flat * Flat = V[1] * V[1] + V[2] * V[2] /\ Long * Long = Sq(V) /\ Unit(Lon) /\ Unit(Col) /\ Unit(C.spin)
Rigid == Sq(p) = den * den * Sq(Start)
Home == step = "home" => p = Start /\ den = 1
Centred == step = "framed" /\ Start = V => p[2] = 0 /\ p[3] = 0 /\ p[1] > 0
Emit == step = "drawn" => PrintT("@@" \o ToJson([i |-> i, frame |-> p, den |-> den, dist2 |-> Sq(Start)]))
===================================================================================
