-------------------------------- MODULE Angles --------------------------------
(* Angles with rational cosine and sine (Pythagorean directions), and points of
   the unit sphere built from them: every coordinate is an exact rational. *)
EXTENDS Rat, FiniteSets

(* first-octant legs of Pythagorean triples <<a, b, hypotenuse>> *)
Dirs(triples) ==
  LET legs == UNION {{<<t[1], t[2], t[3]>>, <<t[2], t[1], t[3]>>} : t \in triples}
  IN  {<<Q(1), Q(0)>>, <<Q(0), Q(1)>>, <<Q(-1), Q(0)>>, <<Q(0), Q(-1)>>}
      \cup {<<Norm(p * l[1], l[3]), Norm(q * l[2], l[3])>> : p, q \in {-1, 1}, l \in legs}

(* directions of colatitudes: sine not negative, <<cos, sin>> *)
Colats(triples) == {d \in Dirs(triples) : RSign(d[2]) >= 0}
OnAxis(d) == d[1] = Zero \/ d[2] = Zero

AngAdd(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[2], b[1]), RMul(a[1], b[2]))>>
AngNeg(a) == <<a[1], RNeg(a[2])>>
AngSub(a, b) == AngAdd(a, AngNeg(b))

SphereVec(phi, theta) == <<RMul(phi[1], theta[2]), RMul(phi[2], theta[2]), theta[1]>>

Dot(u, v) == RAdd(RMul(u[1], v[1]), RAdd(RMul(u[2], v[2]), RMul(u[3], v[3])))
Cross(u, v) == <<RSub(RMul(u[2], v[3]), RMul(u[3], v[2])),
                 RSub(RMul(u[3], v[1]), RMul(u[1], v[3])),
                 RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))>>
VAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2]), RAdd(u[3], v[3])>>
VSub(u, v) == <<RSub(u[1], v[1]), RSub(u[2], v[2]), RSub(u[3], v[3])>>
VScale(k, v) == <<RMul(k, v[1]), RMul(k, v[2]), RMul(k, v[3])>>
VNeg(v) == VScale(Q(-1), v)
Norm2(v) == Dot(v, v)

(* rotation of p by the angle a = <<cos, sin>> about the unit axis n, right-handed *)
RotAbout(n, a, p) ==
  VAdd(VAdd(VScale(a[1], p), VScale(a[2], Cross(n, p))),
       VScale(RMul(RSub(One, a[1]), Dot(n, p)), n))
RotZ(a, p) == <<RSub(RMul(a[1], p[1]), RMul(a[2], p[2])), RAdd(RMul(a[2], p[1]), RMul(a[1], p[2])), p[3]>>
================================================================================
