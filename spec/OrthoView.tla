-------------------------------- MODULE OrthoView --------------------------------
(* Where a sky position falls in the orthographic view (properties D05 and V01).  The view
   looks at a centre; its third axis points from the sphere to the viewer, its second axis
   towards smaller colatitude, its first towards larger longitude.  A position is a vector of
   integers over the common denominator den; an angle is <<c, s, h>>: cosine c/h, sine s/h. *)
EXTENDS Rat, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, p, den, step, flat
vars == <<i, p, den, step, flat>>
C == Given[i]
Sky(lon, col) == <<col[2] * lon[1], col[2] * lon[2], col[1] * lon[3]>>
Start == Sky(C.lon, C.col)
Size == C.lon[3] * C.col[3]
Init == i \in 1..Len(Given) /\ p = Start /\ den = Size /\ step = "sky" /\ flat = <<>>
----------------------------------------------------------------------------------
(* about the polar axis by -a; along the meridian of longitude 0 by colatitude -a *)
Turn(a, q) == <<a[1] * q[1] + a[2] * q[2], a[1] * q[2] - a[2] * q[1], a[3] * q[3]>>
Raise(a, q) == <<a[1] * q[1] - a[2] * q[3], a[3] * q[2], a[2] * q[1] + a[1] * q[3]>>
Back(a) == <<a[1], -a[2], a[3]>>
Quarter == <<0, 1, 1>>
Reduced(q, d) == LET g == Gcd(d, Gcd(Abs(q[1]), Gcd(Abs(q[2]), Abs(q[3])))) IN <<<<q[1] \div g, q[2] \div g, q[3] \div g>>, d \div g>>
Go(from, to, q, d) == /\ step = from /\ step' = to
                      /\ LET r == Reduced(q, d) IN p' = r[1] /\ den' = r[2]
                      /\ UNCHANGED i
(* the centre is brought to the prime meridian, up to the pole, and north to the second axis *)
Face == Go("sky", "faced", Turn(C.at[1], p), den * C.at[1][3]) /\ UNCHANGED flat
Lift == Go("faced", "lifted", Raise(C.at[2], p), den * C.at[2][3]) /\ UNCHANGED flat
North == Go("lifted", "framed", Turn(Quarter, p), den) /\ UNCHANGED flat
Project == step = "framed" /\ step' = "drawn" /\ flat' = <<p[1], p[2]>> /\ UNCHANGED <<i, p, den>>
(* and back, the way a pixel of the view finds its place on the sky *)
Unnorth == Go("drawn", "unturned", Turn(Back(Quarter), p), den) /\ UNCHANGED flat
Unlift == Go("unturned", "lowered", Raise(Back(C.at[2]), p), den * C.at[2][3]) /\ UNCHANGED flat
Unface == Go("lowered", "home", Turn(Back(C.at[1]), p), den * C.at[1][3]) /\ UNCHANGED flat
Next == Face \/ Lift \/ North \/ Project \/ Unnorth \/ Unlift \/ Unface
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Sq(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
(* theorems, checked where the squares fit: lengths never change, the way back leads home, the
   depth is the cosine of the distance from the centre, the centre is in the middle facing the
   viewer, and the north pole is straight above or below it *)
Fits == den <= 30000
Rigid == Fits => Sq(p) = den * den
Home == step = "home" => Norm(p[1], den) = Norm(Start[1], Size) /\ Norm(p[2], den) = Norm(Start[2], Size) /\ Norm(p[3], den) = Norm(Start[3], Size)
At == Sky(C.at[1], C.at[2])
Depth == step = "drawn" =>
   Norm(p[3], den) = RAdd(RMul(Norm(At[1], C.at[1][3] * C.at[2][3]), Norm(Start[1], Size)),
                     RAdd(RMul(Norm(At[2], C.at[1][3] * C.at[2][3]), Norm(Start[2], Size)),
                          RMul(Norm(At[3], C.at[1][3] * C.at[2][3]), Norm(Start[3], Size))))
Middle == step = "drawn" /\ C.lon = C.at[1] /\ C.col = C.at[2] => p[1] = 0 /\ p[2] = 0 /\ p[3] = den
Pole == step = "drawn" /\ C.col[2] = 0 => p[1] = 0 /\ Norm(p[2], den) = Norm(C.col[1] * C.at[2][2], C.at[2][3])
Visible == p[3] > 0
Emit == step = "drawn" => PrintT("@@" \o ToJson([i |-> i, at |-> flat, den |-> den,
                                  side |-> IF p[3] > 0 THEN 1 ELSE IF p[3] = 0 THEN 0 ELSE -1]))
==================================================================================
