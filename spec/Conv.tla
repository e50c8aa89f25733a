---------------------------------- MODULE Conv ----------------------------------
(* Planar and spatial coordinates about a centre (properties C01, C02).

   A point is carried from its polar form to Cartesian form and back.  Everything
   is exact: radii, centres and the cosines and sines of the angles are rational.
   The behaviours are replayed in the real conversions, both ways. *)
EXTENDS Angles, TLC, Json, IOUtils

Tier == IOEnv.TIER
Triples == IF Tier = "thorough" THEN {<<3, 4, 5>>, <<5, 12, 13>>, <<8, 15, 17>>, <<7, 24, 25>>, <<20, 21, 29>>}
                                ELSE {<<3, 4, 5>>, <<5, 12, 13>>}
Radii == {Q(1), <<5, 2>>, <<1, 8>>, Q(13)}
Centres2 == {<<Q(0), Q(0)>>, <<Q(1), Q(-2)>>, <<<<-3, 4>>, <<1, 2>>>>, <<Q(7), Q(7)>>}
Centres3 == {<<Q(0), Q(0), Q(0)>>, <<Q(1), Q(-2), <<3, 2>>>>, <<<<-3, 4>>, <<1, 2>>, Q(-5)>>}

VARIABLES dim,   \* 2 or 3
          ctr,   \* the centre
          pol,   \* [r, phi, theta]: the polar form held, angles as <<cos, sin>>
          cart,  \* the Cartesian form held, or <<>>
          step   \* 0 polar form given; 1 converted to Cartesian; 2 converted back
vars == <<dim, ctr, pol, cart, step>>

Start(d, c, p) == dim = d /\ ctr = c /\ pol = p /\ cart = <<>> /\ step = 0
East == <<One, Zero>>
Init == \/ \E c \in Centres2, r \in Radii, a \in Dirs(Triples) : Start(2, c, [r |-> r, phi |-> a, theta |-> <<Zero, One>>])
        \/ \E c \in Centres2 : Start(2, c, [r |-> Zero, phi |-> East, theta |-> <<Zero, One>>])
        \/ \E c \in Centres3, r \in (IF Tier = "thorough" THEN Radii ELSE {Q(1), <<5, 2>>}), a \in Dirs(Triples), t \in Colats(Triples) :
              (* a direction along the axis has no longitude of its own: 0 by convention *)
              /\ t[2] = Zero => a = East
              /\ Start(3, c, [r |-> r, phi |-> a, theta |-> t])
        \/ \E c \in Centres3 : Start(3, c, [r |-> Zero, phi |-> East, theta |-> <<One, Zero>>])

Offset == IF dim = 2 THEN <<RMul(pol.r, pol.phi[1]), RMul(pol.r, pol.phi[2])>>
          ELSE VScale(pol.r, SphereVec(pol.phi, pol.theta))
ToCart == /\ step = 0
          /\ cart' = [k \in 1..dim |-> RAdd(Offset[k], ctr[k])]
          /\ step' = 1
          /\ UNCHANGED <<dim, ctr, pol>>

(* the inverse is not computed from the forward formula: distance and direction
   are read off the coordinates *)
Root(q) == CHOOSE r \in Radii \cup {Zero} \cup {RMul(x, t[2]) : x \in Radii, t \in Colats(Triples)} : RSq(r) = q
Rel(k) == RSub(cart[k], ctr[k])
Back == LET rho == Root(RAdd(RSq(Rel(1)), RSq(Rel(2))))
            r   == IF dim = 2 THEN rho ELSE Root(RAdd(RSq(rho), RSq(Rel(3))))
        IN  [r |-> r,
             phi |-> IF rho = Zero THEN East ELSE <<RDiv(Rel(1), rho), RDiv(Rel(2), rho)>>,
             theta |-> IF dim = 2 THEN <<Zero, One>>
                       ELSE IF r = Zero THEN <<One, Zero>> ELSE <<RDiv(Rel(3), r), RDiv(rho, r)>>]
ToPolar == /\ step = 1
           /\ pol' = Back
           /\ step' = 2
           /\ UNCHANGED <<dim, ctr, cart>>
Next == ToCart \/ ToPolar
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------------
RoundTrip == [][step = 1 => pol' = pol]_vars
UnitAngles == RAdd(RSq(pol.phi[1]), RSq(pol.phi[2])) = One /\ RAdd(RSq(pol.theta[1]), RSq(pol.theta[2])) = One
Emit == step = 2 =>
  PrintT("@@" \o ToJson([dim |-> dim, ctr |-> ctr, r |-> pol.r, phi |-> pol.phi, theta |-> pol.theta, cart |-> cart]))
================================================================================
