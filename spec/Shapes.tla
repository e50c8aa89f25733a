--------------------------------- MODULE Shapes ---------------------------------
(* Outlines (property P05): a pen walks round a rectangle in two coordinates (x and y,
   or radius and angle), along an arc, or along the edges of a box; and which corners
   of a box are hidden from a viewpoint outside. *)
EXTENDS Rat, FiniteSets, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"

VARIABLES kind, c, path, side, k
vars == <<kind, c, path, side, k>>

Rects == {[lo |-> a, hi |-> b, n |-> n] :
            a \in {<<Zero, Zero>>, <<<<1, 2>>, <<-1, 3>>>>} \cup (IF Thorough THEN {<<<<2, 1>>, <<1, 4>>>>} ELSE {}),
            b \in {<<<<3, 1>>, <<1, 4>>>>, <<<<5, 2>>, <<2, 1>>>>},
            n \in {1, 2, 3, 10, 275} \cup (IF Thorough THEN {4, 5, 7, 25} ELSE {})}
(* an arc: its angles in units of pi *)
Arcs == {[lo |-> a, hi |-> b, n |-> n] : a \in {Zero, <<1, 3>>, <<-1, 2>>}, b \in {<<2, 1>>, <<1, 2>>, <<7, 4>>},
                                        n \in {1, 2, 10, 13, 1024} \cup (IF Thorough THEN {3, 100} ELSE {})}
Boxes == {[lo |-> a, hi |-> b] : a \in {<<0, 0, 0>>, <<-1, 2, -3>>}, b \in {<<4, 4, 4>>, <<2, 5, 1>>}}
Coord == IF Thorough THEN {-2000, -9, -2, 0, 1, 3, 6, 12, 900} ELSE {-700, -5, 1, 3, 8}
Outside(b, v) == \E d \in 1..3 : v[d] < b.lo[d] \/ v[d] > b.hi[d]
Views(b) == {v \in Coord \X Coord \X Coord : Outside(b, v)}

Init == /\ path = <<>> /\ side = 1 /\ k = 0
        /\ \/ kind = "rect" /\ c \in Rects
           \/ kind = "arc" /\ c \in Arcs
           \/ kind = "box" /\ \E b \in Boxes : c \in {[b |-> b, v |-> v] : v \in Views(b)}

(* ---- walking a rectangle anticlockwise from its lower corner ---- *)
Corner(q) == CASE q % 4 = 1 -> c.lo
               [] q % 4 = 2 -> <<c.hi[1], c.lo[2]>>
               [] q % 4 = 3 -> c.hi
               [] q % 4 = 0 -> <<c.lo[1], c.hi[2]>>
Between(a, b, n, m) == IF m = 0 THEN a ELSE RAdd(a, RMul(Norm(m, n - 1), RSub(b, a)))
Mark == /\ kind = "rect" /\ side <= 4 /\ k < c.n
        /\ path' = Append(path, <<Between(Corner(side)[1], Corner(side + 1)[1], c.n, k),
                                  Between(Corner(side)[2], Corner(side + 1)[2], c.n, k)>>)
        /\ k' = k + 1 /\ UNCHANGED <<kind, c, side>>
Turn == kind = "rect" /\ side <= 4 /\ k = c.n /\ side' = side + 1 /\ k' = 0 /\ UNCHANGED <<kind, c, path>>
(* ---- along an arc ---- *)
Sweep == /\ kind = "arc" /\ k < c.n
         /\ path' = Append(path, Between(c.lo, c.hi, c.n, k)) /\ k' = k + 1 /\ UNCHANGED <<kind, c, side>>
Next == Mark \/ Turn \/ Sweep
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
(* ---- the box ---- *)
CornersOf(b) == {<<x, y, z>> : x \in {b.lo[1], b.hi[1]}, y \in {b.lo[2], b.hi[2]}, z \in {b.lo[3], b.hi[3]}}
Differ(p, q) == Cardinality({d \in 1..3 : p[d] # q[d]})
EdgesOf(b) == {e \in SUBSET CornersOf(b) : Cardinality(e) = 2 /\ \A p, q \in e : p # q => Differ(p, q) = 1}
(* the part of the way from v to corner p during which coordinate d is strictly inside *)
Span(b, v, p, d) ==
  IF p[d] = v[d] THEN (IF b.lo[d] < v[d] /\ v[d] < b.hi[d] THEN <<Zero, One>> ELSE <<One, Zero>>)
  ELSE LET s == Norm(b.lo[d] - v[d], p[d] - v[d]) t == Norm(b.hi[d] - v[d], p[d] - v[d])
       IN <<RMax(Zero, RMin(s, t)), RMin(One, RMax(s, t))>>
Inside(b, v, p) == LET x == Span(b, v, p, 1) y == Span(b, v, p, 2) z == Span(b, v, p, 3)
                       lo == RMax(x[1], RMax(y[1], z[1])) hi == RMin(x[2], RMin(y[2], z[2]))
                   IN IF RLt(lo, hi) THEN RSub(hi, lo) ELSE Zero
Hidden(b, v) == {p \in CornersOf(b) : Inside(b, v, p) # Zero}
(* a corner is hidden exactly if every face it belongs to is turned away *)
Turned(b, v, p) == \A d \in 1..3 : IF p[d] = b.lo[d] THEN v[d] > b.lo[d] ELSE v[d] < b.hi[d]
Convex == kind = "box" => Hidden(c.b, c.v) = {p \in CornersOf(c.b) : Turned(c.b, c.v, p)}
Kept(b, v) == {e \in EdgesOf(b) : e \cap Hidden(b, v) = {}}

Closed == (kind = "rect" /\ side = 5 /\ c.n > 1) => path[1] = path[Len(path)]
Twelve == kind = "box" => Cardinality(EdgesOf(c.b)) = 12
Emit == /\ (kind = "rect" /\ side = 5) => PrintT("@@" \o ToJson([kind |-> kind, c |-> c, path |-> path]))
        /\ (kind = "arc" /\ k = c.n) => PrintT("@@" \o ToJson([kind |-> kind, c |-> c, path |-> path]))
        /\ (kind = "box") => PrintT("@@" \o ToJson([kind |-> kind, c |-> c, edges |-> EdgesOf(c.b), kept |-> Kept(c.b, c.v)]))
================================================================================
