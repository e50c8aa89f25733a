--------------------------------- MODULE Sphere ---------------------------------
(* Rotations of the unit sphere (property C03).

   The state is a rotation request and the image of a few exact points of the
   sphere; TLC visits every request over the exact directions below, carries the
   points over, and checks what makes each one the rotation it is meant to be. *)
EXTENDS Angles, TLC, Json, IOUtils

Tier == IOEnv.TIER
T345 == {<<3, 4, 5>>}
Phis == Dirs(T345)                        \* 12 longitudes
Thetas == Colats(T345)                    \* 7 colatitudes, both poles among them
Places == {<<p, t>> : p \in Phis, t \in Thetas}
Vec(pl) == SphereVec(pl[1], pl[2])
Alphas == Phis \cup {<<One, Zero, 1>>}    \* the marked one is the full turn

(* points carried along: a frame, and points off all planes *)
Marks == << <<Q(1), Q(0), Q(0)>>, <<Q(0), Q(1), Q(0)>>, <<Q(0), Q(0), Q(-1)>>,
            SphereVec(<<<<3, 5>>, <<-4, 5>>>>, <<<<4, 5>>, <<3, 5>>>>),
            SphereVec(<<<<-4, 5>>, <<3, 5>>>>, <<<<-3, 5>>, <<4, 5>>>>) >>

Index(pl) == LET n(q) == q[1] + 7 * q[2] IN Abs(n(pl[1][1]) + 3 * n(pl[1][2]) + 5 * n(pl[2][1]))
Kept(a, b) == Tier = "thorough" \/ (Index(a) + 2 * Index(b)) % 5 = 0

VARIABLES op,     \* "rotate", "shift", "spin" or "turn"
          a, b,   \* the places it is given: start and end, or the centre twice
          alpha,  \* the angle, for "spin" and "turn"
          img     \* the images of Marks, <<>> before
vars == <<op, a, b, alpha, img>>

Init == /\ img = <<>>
        /\ \/ op = "rotate" /\ alpha = <<One, Zero>> /\ a \in Places /\ b \in Places /\ a # b /\ Kept(a, b)
           \/ op = "shift" /\ alpha = <<One, Zero>> /\ a \in Places /\ b \in Places /\ Kept(a, b)
           \/ op = "spin" /\ a \in Places /\ b = a /\ alpha \in Alphas
           \/ op = "turn" /\ a = <<<<One, Zero>>, <<Zero, One>>>> /\ b = a /\ alpha \in Alphas

(* the rotation carrying u along the shortest arc to v, for v # -u *)
Carry(u, v, p) == VAdd(VSub(p, VScale(RDiv(Dot(p, VAdd(u, v)), RAdd(One, Dot(u, v))), VAdd(u, v))),
                       VScale(RMul(Q(2), Dot(p, u)), v))
Antipodal(u, v) == v = VNeg(u)
(* the horizontal axis about which colatitude grows at the longitude phi *)
Tilt(phi) == <<RNeg(phi[2]), phi[1], Zero>>
(* along the meridian of phi from colatitude s to colatitude t *)
Meridian(phi, s, t, p) == RotAbout(Tilt(phi), AngSub(t, s), p)

Image(p) == CASE op = "rotate" -> IF Antipodal(Vec(a), Vec(b)) THEN Meridian(a[1], <<One, Zero>>, <<Q(-1), Zero>>, p)
                                  ELSE Carry(Vec(a), Vec(b), p)
              [] op = "shift"  -> Meridian(b[1], a[2], b[2], RotZ(AngSub(b[1], a[1]), p))
              [] op = "spin"   -> RotAbout(Vec(a), <<alpha[1], alpha[2]>>, p)
              [] op = "turn"   -> RotZ(<<alpha[1], alpha[2]>>, p)
Apply == img = <<>> /\ img' = [k \in 1..Len(Marks) |-> Image(Marks[k])] /\ UNCHANGED <<op, a, b, alpha>>
Next == Apply
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------------
Done == img # <<>>
(* rigid: the image of the frame is orthonormal, and every marked point keeps its
   coordinates in it.  (The marked frame is x, y, -z.) *)
(* (left out where the products would not fit TLC's integers) *)
Fits == \A k \in 1..5, c \in 1..3 : img[k][c][2] <= 16000
Frame == Done /\ Fits => Cross(img[1], img[2]) = VNeg(img[3])
Rigid == Done /\ Fits => \A k \in 4..5 :
           img[k] = VAdd(VScale(Marks[k][1], img[1]), VAdd(VScale(Marks[k][2], img[2]), VScale(RNeg(Marks[k][3]), img[3])))
Reaches == Done => CASE op = "rotate" -> Image(Vec(a)) = Vec(b)
                     [] op = "shift"  -> Image(Vec(a)) = Vec(b)
                     [] op = "spin"   -> Image(Vec(a)) = Vec(a)
                     [] op = "turn"   -> Image(<<Zero, Zero, One>>) = <<Zero, Zero, One>>
(* what lies across a shortest arc is left where it is *)
AxisFixed == Done /\ op = "rotate" /\ ~Antipodal(Vec(a), Vec(b)) => Image(Cross(Vec(a), Vec(b))) = Cross(Vec(a), Vec(b))
Emit == Done => PrintT("@@" \o ToJson([op |-> op, a |-> a, b |-> b, alpha |-> alpha, img |-> img,
                                       anti |-> Antipodal(Vec(a), Vec(b))]))
EmitMarks == PrintT("@@" \o ToJson([marks |-> Marks]))
ASSUME EmitMarks
================================================================================
