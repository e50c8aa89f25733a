-------------------------------- MODULE OrthoLines --------------------------------
(* What an orthographic plot may show (property V01).  A judge reads a recorded drawing of
   the sphere, point by point: every drawn point is put back on the sky and must lie on one
   of the curves asked for (stretches of meridians and parallels), successive points of a
   stroke lie close together, and in the end every stretch of every curve that faces the
   viewer has been drawn.  Then the judge walks along the edges of the view and compares
   the ticks with the meridians or parallels it crosses.
     C.curves: [m |-> 1 meridian / 0 parallel, at, from, to], angles in steps of pi/720
     C.lines:  strokes, lists of points <<x, y>> in units of 1/S of the sphere's radius
     C.single: every stroke belongs to one curve;  C.bucket: the stretches, in steps
     C.places: sky positions whose place in the view is asked for
     C.edges:  [lon |-> 1 ticks are longitudes / 0 colatitudes, along |-> <<from, to>>, off,
                grid |-> angles, ticks |-> <<position, angle>>, h |-> spacing of samples] *)
EXTENDS Fix, TLC, Json, IOUtils, FiniteSets

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, line, pt,     \* the drawing, and how far it has been read
          cand,            \* the curves the current stroke may belong to
          met,             \* stretches drawn: <<curve, number>>
          fault,           \* the first thing found wrong
          edge, cell       \* the walk along the edges of the view
vars == <<i, line, pt, cand, met, fault, edge, cell>>
C == Given[i]
All == 1..Len(C.curves)
Init == i \in 1..Len(Given) /\ line = 1 /\ pt = 0 /\ cand = {} /\ met = {} /\ fault = <<>> /\ edge = 1 /\ cell = 0
------------------------------------------------------------------------------------
(* between the view and the sky, as in SkyMap *)
Place(v) == RotZ(RotY(RotZ(v, 360), C.centre[2]), C.centre[1])
View(u) == RotZ(RotY(RotZ(u, 2 * T - C.centre[1]), 2 * T - C.centre[2]), T - 360)
Blur == 16
Depth2(x, y) == S * S - x * x - y * y
Height(x, y) == FSqrt(MaxF(Depth2(x, y), 0))
Slack(x, y) == Blur + (2 * S) \div MaxF(Height(x, y), 100)
OnDisc(x, y) == Depth2(x, y) > -4 * S
Back(x, y) == Place(<<x, y, Height(x, y)>>)

Cross2(a, v) == Dv(FCos(a) * v[2] - FSin(a) * v[1], S)
Dot2(a, v) == Dv(FCos(a) * v[1] + FSin(a) * v[2], S)
(* v lies between the directions a and b, as longitudes, give or take d *)
Within(v, a, b, d) == \/ b - a >= T
                      \/ b - a > T \div 2 /\ (Cross2(a, v) >= -d \/ Cross2(b, v) <= d)
                      \/ b - a <= T \div 2 /\ Cross2(a, v) >= -d /\ Cross2(b, v) <= d /\ Dot2((a + b) \div 2, v) >= -2 * d
(* the plane of the meridian a: colatitude is the longitude of <<height, distance>> *)
OnPlane(v, a) == <<v[3], Dot2(a, v)>>
On(c, v, d) == IF c.m = 1 THEN /\ FAbs(Cross2(c.at, v)) <= d
                               /\ Dot2(c.at, v) >= -d
                               /\ Within(OnPlane(v, c.at), c.from, c.to, d)
               ELSE /\ FAbs(v[3] - FCos(c.at)) <= d
                    /\ FAbs(Rho(v) - FSin(c.at)) <= d
                    /\ Within(v, c.from, c.to, d)
(* how far along its curve, in steps *)
Along(c, v) == LET a == LonMu(IF c.m = 1 THEN <<v[3], MaxF(Dot2(c.at, v), 0), 0>> ELSE v) \div Mu
               IN  IF c.m = 1 THEN a - c.from ELSE (a - c.from + 2 * T) % T
Stretch(c, v) == LET n == Along(c, v) \div C.bucket IN IF n < 0 THEN 0 ELSE n

Stroke == C.lines[line]
Far(p, q) == LET a == <<p[1], p[2], Height(p[1], p[2])>> b == <<q[1], q[2], Height(q[1], q[2])>>
                 gap == C.bucket * StepS + Slack(p[1], p[2]) + Slack(q[1], q[2])
             IN  \E n \in 1..3 : FAbs(a[n] - b[n]) > gap
(* the judge reads the next point *)
Read == /\ fault = <<>> /\ line <= Len(C.lines) /\ pt < Len(Stroke)
        /\ LET p == Stroke[pt + 1]
               ok == OnDisc(p[1], p[2])
               v == Back(p[1], p[2])
               now == IF ~ok THEN {} ELSE {c \in (IF C.single /\ pt > 0 THEN cand ELSE All) : On(C.curves[c], v, Slack(p[1], p[2]))}
           IN  /\ cand' = now
               /\ met' = met \cup {<<c, Stretch(C.curves[c], v)>> : c \in now}
               /\ fault' = IF now = {} THEN <<"off every curve", line, pt + 1>>
                           ELSE IF pt > 0 /\ Far(Stroke[pt], p) THEN <<"a jump", line, pt + 1>>
                           ELSE <<>>
        /\ pt' = pt + 1
        /\ UNCHANGED <<i, line, edge, cell>>
Lift == /\ fault = <<>> /\ line <= Len(C.lines) /\ pt = Len(Stroke)
        /\ line' = line + 1 /\ pt' = 0 /\ cand' = {}
        /\ UNCHANGED <<i, met, fault, edge, cell>>
(* a stretch faces the viewer if its ends and middle do, clearly *)
At == Vec(C.centre[1], C.centre[2])
Facing(u) == Dv(u[1] * At[1], S) + Dv(u[2] * At[2], S) + Dv(u[3] * At[3], S) > S \div 7
Point(c, n) == IF c.m = 1 THEN Vec(c.at, n) ELSE Vec(n, c.at)
Shown(c, b) == \A n \in {0, C.bucket \div 2, C.bucket} : Facing(Point(c, c.from + b * C.bucket + n))
Stretches(c) == IF c.m = 0 /\ (c.at = 0 \/ c.at = 720) THEN {} ELSE 0..(((c.to - c.from) \div C.bucket) - 1)
Holes == UNION {{<<c, b>> : b \in {s \in Stretches(C.curves[c]) : <<c, s>> \notin met /\ Shown(C.curves[c], s)}} : c \in All}
------------------------------------------------------------------------------------
(* the edges of the view *)
Cells == 64
E == C.edges[edge]
Spot(e, k) == e.along[1] + ((e.along[2] - e.along[1]) * k) \div Cells
XY(e, q) == IF e.lon = 1 THEN <<q, e.off>> ELSE <<e.off, q>>
Lit(e, q) == Depth2(XY(e, q)[1], XY(e, q)[2]) > 4 * S
Value(e, v) == IF e.lon = 1 THEN LonMu(v) ELSE LonMu(<<v[3], Rho(v), 0>>)
Wrap(m) == ((m + 3 * 720 * Mu) % (T * Mu)) - 720 * Mu
(* on which side of the grid line g the point q of the edge lies: -1, 1, or 0 for both *)
SideOf(e, g, q) == IF ~Lit(e, q) THEN 0
                   ELSE LET p == XY(e, q)
                            v == Back(p[1], p[2])
                            d == Slack(p[1], p[2])
                            err == (d * RadMu) \div (IF e.lon = 1 THEN MaxF(Rho(v), 1) ELSE S) + 100
                            m == IF e.lon = 1 THEN Wrap(Value(e, v) - g * Mu) ELSE Value(e, v) - g * Mu
                        IN  IF m > err /\ m < 360 * Mu THEN 1 ELSE IF m < -err /\ m > -360 * Mu THEN -1
                            ELSE IF FAbs(m) <= err THEN 0 ELSE 2
(* a tick is right if within one sample of it the grid line may be crossed *)
Right(e, t) == LET sides == {SideOf(e, t[2], t[1] + (e.h * k) \div 4) : k \in -4..4}
               IN  0 \in sides \/ {1, -1} \subseteq sides
Wrong(e) == {k \in 1..Len(e.ticks) : ~Right(e, e.ticks[k])}
(* a crossing that cannot be missed: clear, away from the limb and from the poles *)
Clear(e, q) == Lit(e, q) /\ (e.lon = 0 \/ LET p == XY(e, q) IN Rho(Back(p[1], p[2])) > 4 * (e.h + (e.along[2] - e.along[1]) \div Cells))
Near(e, k) == {MaxF(e.along[1], Spot(e, k) - e.h), -MaxF(-e.along[2], -(Spot(e, k + 1) + e.h))}
Crossed(e, g, k) == /\ \A q \in Near(e, k) : Clear(e, q)
                    /\ {SideOf(e, g, Spot(e, k)), SideOf(e, g, Spot(e, k + 1))} = {1, -1}
Ticked(e, g, k) == \E t \in 1..Len(e.ticks) : e.ticks[t][2] % T = g % T /\ e.ticks[t][1] >= Spot(e, k) - e.h - 2 /\ e.ticks[t][1] <= Spot(e, k + 1) + e.h + 2
Drawn == line > Len(C.lines)
Walk == /\ fault = <<>> /\ Drawn /\ edge <= Len(C.edges)
        /\ fault' = IF cell = 0 /\ Wrong(E) # {} THEN <<"a misplaced tick", edge, CHOOSE k \in Wrong(E) : TRUE>>
                    ELSE IF \E g \in 1..Len(E.grid) : Crossed(E, E.grid[g], cell) /\ ~Ticked(E, E.grid[g], cell)
                         THEN <<"a missing tick", edge, cell>>
                    ELSE <<>>
        /\ IF cell = Cells - 1 THEN edge' = edge + 1 /\ cell' = 0 ELSE edge' = edge /\ cell' = cell + 1
        /\ UNCHANGED <<i, line, pt, cand, met>>
Next == Read \/ Lift \/ Walk
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------------
Finished == fault # <<>> \/ (Drawn /\ edge > Len(C.edges))
(* theorems: what is put back on the sky is seen where it was *)
Near3(u, v, d) == \A n \in 1..3 : FAbs(u[n] - v[n]) <= d
Same == line = 1 /\ pt = 0 =>
          \A n \in 1..Len(C.places) : LET u == Vec(C.places[n][1], C.places[n][2]) IN Near3(Place(View(u)), u, 12)
Straight == line = 1 /\ pt = 0 => Near3(View(At), <<0, 0, S>>, 12)
Short == \A m \in met : m[1] \in All
Verdict == IF fault # <<>> THEN fault
           ELSE IF Holes # {} THEN <<"a missing stretch", (CHOOSE h \in Holes : TRUE)[1], (CHOOSE h \in Holes : TRUE)[2]>>
           ELSE <<>>
Emit == Finished => PrintT("@@" \o ToJson([i |-> i, verdict |-> Verdict, met |-> Cardinality(met),
            places |-> [n \in 1..Len(C.places) |-> View(Vec(C.places[n][1], C.places[n][2]))]]))
====================================================================================
