-------------------------------- MODULE SkyArea --------------------------------
(* The area of a sky rectangle (property C05): exact in units of pi for longitudes
   that are fractions of pi and colatitudes with rational cosines. *)
EXTENDS Rat, TLC, Json, IOUtils

Tier == IOEnv.TIER
Lons == {Norm(k, 6) : k \in 0..12} \cup {<<1, 100>>, <<199, 100>>}
(* cosines of the colatitudes from the north pole down *)
Cosines == {Q(1), <<4, 5>>, <<3, 5>>, Half, Q(0), <<-3, 5>>, <<-99, 100>>, Q(-1)}
(* slivers: rectangles of tiny height and of tiny width *)
Slivers == {<<Q(1), <<9999, 10000>>>>, <<Q(1), <<999999, 1000000>>>>, <<<<600010, 1000000>>, <<3, 5>>>>, <<<<3, 5>>, <<599999, 1000000>>>>,
            <<<<1, 1000000>>, Q(0)>>, <<<<-99999, 100000>>, Q(-1)>>,
            <<<<3, 5>>, <<5993, 10000>>>>, <<<<9, 10000>>, Q(0)>>, <<<<-7, 10000>>, <<-1, 500>>>>, <<<<-3, 5>>, <<-121, 200>>>>,
            <<<<4, 5>>, <<79, 100>>>>, <<<<999, 1000>>, <<998, 1000>>>>}
Strips == {<<Q(0), <<1, 100000>>>>, <<<<1, 2>>, <<50001, 100000>>>>, <<<<199999, 100000>>, Q(2)>>,
           <<<<1, 3>>, <<1003, 3000>>>>, <<<<7, 5>>, <<141, 100>>>>}

VARIABLES p1, p2, c1, c2, area
vars == <<p1, p2, c1, c2, area>>
Area(a, b, c, d) == RMul(RSub(b, a), RSub(c, d))
Upright == p1 \in Lons /\ p2 \in Lons /\ RLt(p1, p2) /\ c1 \in Cosines /\ c2 \in Cosines /\ RLt(c2, c1)
(* bounds given the wrong way round count negative, like every integral *)
Turned == /\ p1 \in Lons /\ p2 \in Lons /\ p1 # p2 /\ p1 # Q(2) /\ p2 # Q(0)
          /\ c1 \in Cosines /\ c2 \in Cosines /\ c1 # c2 /\ c1 # Q(-1) /\ c2 # Q(1)
Thin == \/ p1 \in Lons /\ p2 \in Lons /\ RLt(p1, p2) /\ \E s \in Slivers : c1 = Norm(s[1][1], s[1][2]) /\ c2 = Norm(s[2][1], s[2][2])
        \/ \E s \in Strips : p1 = s[1] /\ p2 = s[2] /\ c1 \in Cosines /\ c2 \in Cosines /\ RLt(c2, c1)
Init == (Upright \/ Turned \/ Thin) /\ area = Zero
(* the area is gathered by cutting the rectangle along its first inner longitude *)
Next == area = Zero /\ area' = Area(p1, p2, c1, c2) /\ UNCHANGED <<p1, p2, c1, c2>>
Spec == Init /\ [][Next]_vars
Additive == area # Zero =>
  /\ \A m \in Lons : RLt(p1, m) /\ RLt(m, p2) => RAdd(Area(p1, m, c1, c2), Area(m, p2, c1, c2)) = area
  /\ \A m \in Cosines : RLt(m, c1) /\ RLt(c2, m) => RAdd(Area(p1, p2, c1, m), Area(p1, p2, m, c2)) = area
Sphere == Area(Q(0), Q(2), Q(1), Q(-1)) = Q(4)
ASSUME Sphere
Positive == area # Zero => (RLt(Zero, area) <=> (RLt(p1, p2) <=> RLt(c2, c1)))
Emit == area # Zero => PrintT("@@" \o ToJson([p1 |-> p1, p2 |-> p2, c1 |-> c1, c2 |-> c2, area |-> area]))
================================================================================
