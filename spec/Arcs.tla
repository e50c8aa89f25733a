---------------------------------- MODULE Arcs ----------------------------------
(* Rotations along great circles (property C03), by angles of any size down to billionths
   of a turn.  Angles are whole numbers of units, Full to the turn.  Points of a meridian
   circle L are named by s, 0..Full-1: down from the north pole at the longitude L, and up
   again on the other side; points of the equator by their longitude.  A rotation along
   the circle adds to s and leaves the two points across the circle where they are. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Full == 1073741824
Half == Full \div 2
Quarter == Full \div 4
Mod(x) == x % Full

Given == JsonDeserialize(IOEnv.CASES)[1]         \* random angles
Set(q) == {q[k] : k \in 1..Len(q)}
Ls == {0, Quarter, Full - 2000} \cup Set(Given.ls)
Starts == {0, 2560, Quarter, Half - 2560, Half} \cup Set(Given.starts)
Steps == {1, 30, 2000, 200000, 6400000, Quarter, Half - 192000, Half - 2560, Half - 2} \cup Set(Given.steps)
(* points carried along *)
Points == <<0, 25, 320000, Quarter - 3840, Quarter, Half - 35, Half, Half + 12800, Half + Quarter, Full - 1984>>

(* longitude and colatitude *)
OnMeridian(L, s) == IF Mod(s) <= Half THEN <<Mod(L), Mod(s)>> ELSE <<Mod(L + Half), Full - Mod(s)>>
OnEquator(s) == <<Mod(s), Quarter>>
Place(c, s) == IF c.equator THEN OnEquator(s) ELSE OnMeridian(c.L, s)
(* the points across the circle *)
Across(c) == IF c.equator THEN << <<0, 0>>, <<0, Half>> >> ELSE << <<Mod(c.L + Quarter), Quarter>>, <<Mod(c.L - Quarter), Quarter>> >>

Circles == {[equator |-> TRUE, L |-> 0]} \cup {[equator |-> FALSE, L |-> l] : l \in Ls}
VARIABLES c, op, from, d, to       \* to: the images of Points
vars == <<c, op, from, d, to>>
Init == /\ to = <<>>
        /\ \/ op = "rotate" /\ c \in Circles /\ from \in Starts /\ d \in Steps \cup {-x : x \in Steps}
           \* along the meridian, after the longitudes
           \/ op = "shift" /\ c \in {x \in Circles : ~x.equator} /\ from \in Starts
              /\ d \in {x \in Steps \cup {-y : y \in Steps} : from + x >= 0 /\ from + x <= Half}
           \* about the point across the circle from which it runs anticlockwise
           \/ op = "spin" /\ c \in Circles /\ from = 0 /\ d \in Steps \cup {Half + x : x \in Steps}
Move(s) == CASE op = "spin" /\ ~c.equator -> Mod(s - d)
             [] OTHER -> Mod(s + d)
Go == to = <<>> /\ to' = [k \in 1..Len(Points) |-> Move(Points[k])] /\ UNCHANGED <<c, op, from, d>>
Spec == Init /\ [][Go]_vars
---------------------------------------------------------------------------------
Done == to # <<>>
(* distances along the circle are kept, the start is carried to the end, shortest way *)
Kept == Done => \A j, k \in 1..Len(Points) : Mod(to[j] - to[k]) = Mod(Points[j] - Points[k])
Reaches == Done /\ op # "spin" => Place(c, Move(from)) = Place(c, from + d) /\ d > -Half /\ d < Half
Emit == Done => PrintT("@@" \o ToJson([op |-> op, equator |-> c.equator, L |-> c.L, d |-> d, across |-> Across(c),
             start |-> Place(c, from), end |-> Place(c, from + d),
             pts |-> [k \in 1..Len(Points) |-> Place(c, Points[k])], img |-> [k \in 1..Len(Points) |-> Place(c, to[k])]]))
=================================================================================
