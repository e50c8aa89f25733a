--------------------------------- MODULE Setups ---------------------------------
(* What a remapper publishes about its grids (property G03).

   A remapper holds a grid: nothing at first.  A setup is either refused, and the grid stays
   what it was, or it replaces the grid: edges, midpoints, cell widths and the coordinates of
   every cell.  Numbers are exact; angles are in units of pi. *)
EXTENDS Rat, TLC, Json, IOUtils

More == JsonDeserialize(IOEnv.CASES)[1]      \* random axes of every sort
Set(s) == {s[k] : k \in 1..Len(s)}
None == [none |-> TRUE]

(* an axis is asked for by its ends and its number of cells; rule says which are refused *)
Ax(lo, hi, n) == [lo |-> lo, hi |-> hi, n |-> n]
Boxes == Set(More.boxes) \cup {Ax(<<-3, 2>>, Q(2), 3), Ax(Q(1), <<7, 4>>, 1), Ax(Q(0), Q(1), 0), Ax(Q(0), Q(1), -2), Ax(Q(-2), Q(1), More.long)}
Boxes2 == Set(More.boxes) \cup {Ax(Q(-1), Q(1), 2), Ax(Q(4), <<25, 4>>, 5), Ax(Q(0), Q(1), 0), Ax(Q(0), Q(1), -1)}
Boxes3 == {Ax(<<-1, 2>>, Q(1), 2), Ax(Q(0), Q(3), 1), Ax(Q(0), Q(1), 0), Ax(Q(0), Q(1), -1)}
Radii == Set(More.radii) \cup {Ax(Q(0), <<3, 2>>, 3), Ax(<<1, 4>>, Q(1), 1), Ax(<<-1, 8>>, Q(1), 2), Ax(Q(1), Q(1), 2), Ax(Q(2), Q(1), 2), Ax(Q(0), Q(1), 0), Ax(Q(0), Q(1), -1), Ax(<<1, 2>>, Q(3), More.long)}
Colats == Set(More.colats) \cup {Ax(Q(0), <<1, 3>>, 3), Ax(<<1, 4>>, Q(1), 2), Ax(<<-1, 8>>, <<1, 2>>, 2), Ax(<<1, 2>>, <<1, 2>>, 2), Ax(<<1, 2>>, <<1, 4>>, 2), Ax(Q(0), <<1, 2>>, 0), Ax(Q(0), Half, More.long)}
(* angles over the whole circle are the default *)
Turns == Set(More.turns) \cup {Ax(Q(0), Q(2), 3), Ax(<<1, 4>>, <<3, 2>>, 4), Ax(<<3, 2>>, Q(2), 1), Ax(<<-1, 4>>, Q(1), 2), Ax(Q(2), Q(3), 2), Ax(Q(1), Q(1), 2), Ax(Q(1), <<1, 2>>, 2),
          Ax(Q(0), Q(2), More.long + 1), Ax(Q(0), <<5, 2>>, 2), Ax(Q(0), Q(2), 0), Ax(Q(0), Q(1), -3)}
(* radii in geometric progression, from lo with a ratio; zero adds an edge at 0 *)
Logs == Set(More.logs) \cup {[lo |-> l, ratio |-> q, n |-> n, zero |-> z] : l \in {<<1, 8>>, Q(2)}, q \in {Q(2), <<3, 2>>}, n \in {1, 2, 4}, z \in BOOLEAN}
        \cup {[lo |-> l, ratio |-> q, n |-> n, zero |-> z] : l \in {Q(0), <<-1, 2>>}, q \in {Q(2)}, n \in {2}, z \in BOOLEAN}
        \cup {[lo |-> <<1, 8>>, ratio |-> Q(2), n |-> 20, zero |-> z] : z \in BOOLEAN}
        \cup {[lo |-> Q(1), ratio |-> Q(1), n |-> 2, zero |-> z] : z \in BOOLEAN}
        \cup {[lo |-> Q(1), ratio |-> Half, n |-> 3, zero |-> z] : z \in BOOLEAN}
        \cup {[lo |-> Q(1), ratio |-> Q(2), n |-> n, zero |-> z] : n \in {0, -1}, z \in BOOLEAN}
(* lengths about a centre: y may be left out (0 for the length or number given as "like x") *)
Lengths == Set(More.lengths) \cup {<<Q(1), 3>>, <<<<3, 2>>, 2>>, <<Q(2), 1>>, <<<<9, 4>>, 2>>, <<<<-1, 2>>, 2>>, <<Q(1), 0>>, <<Q(1), -1>>, <<<<7, 4>>, More.long>>}
Like == Q(99)
YLengths == {<<Like, 0>>, <<<<1, 2>>, 2>>, <<Like, 5>>, <<Q(1), 0>>, <<<<5, 4>>, 2>>, <<<<-1, 4>>, 1>>, <<Q(1), -1>>}

(* the whole disc in cells fine enough for many to lie right at the limb *)
Limb == <<<<Q(2), More.fine>>, <<Q(2), More.fine>>, One>>
Pairs(A, B) == {<<a, b>> : a \in A, b \in B}
Kinds == [box2 |-> Pairs(Boxes, Boxes2),
          box3 |-> {<<a, b, c>> : a \in Boxes, b \in Boxes2, c \in Boxes3},
          ring |-> Pairs(Radii, Turns),
          logring |-> Pairs(Logs, Turns),
          shell |-> {<<a>> : a \in Radii},
          logshell |-> {<<a>> : a \in Logs},
          cap |-> Pairs(Colats, Turns),
          sky |-> Pairs(Lengths, YLengths),
          view |-> {<<a, b, r>> : a \in Lengths, b \in YLengths, r \in {Q(1), <<3, 4>>, Q(2)}} \cup {Limb},
          map |-> {<<n>> : n \in -1..9},
          fine |-> {<<n, s, r>> : n \in 0..3, s \in -1..2, r \in -1..3}]     \* Nside and the subdivisions of shells
(* how many coordinates a centre has; 0 leaves it out *)
Coordinates == [box2 |-> 0, box3 |-> 0, ring |-> 2, logring |-> 2, shell |-> 3, logshell |-> 3, cap |-> 2, sky |-> 2, view |-> 2, map |-> 0, fine |-> 0]

VARIABLES kind, asked, center, grid, times
vars == <<kind, asked, center, grid, times>>
Init == kind \in DOMAIN Kinds /\ asked = <<>> /\ center = 0 /\ grid = None /\ times = 0
---------------------------------------------------------------------------------
(* the refusals *)
BadBox(a) == a.n <= 0
BadRadius(a) == RSign(a.lo) < 0 \/ RLe(a.hi, a.lo) \/ a.n <= 0
BadTurn(a) == RSign(a.lo) < 0 \/ RLe(Q(2), a.lo) \/ RLe(a.hi, a.lo) \/ RLt(Q(2), a.hi) \/ a.n <= 0
BadLog(a) == RSign(a.lo) <= 0 \/ RLe(a.ratio, One) \/ a.n <= 0
YLen(k, x, y) == IF y[1] = Like THEN (IF k = "sky" /\ RLt(One, x[1]) THEN One ELSE x[1]) ELSE y[1]
(* a number of 0 cells stands for "not given" when the length is not given either *)
YNum(x, y) == IF y = <<Like, 0>> THEN x[2] ELSE y[2]
BadSky(x, y) == \/ x[2] <= 0 \/ RSign(x[1]) < 0 \/ RLt(Q(2), x[1])
                \/ (y[1] # Like /\ (RSign(y[1]) < 0 \/ RLt(One, y[1])))
                \/ YNum(x, y) <= 0
BadView(x, y) == x[2] <= 0 \/ YNum(x, y) <= 0
Refused(k, a) ==
  CASE k = "box2" -> BadBox(a[1]) \/ BadBox(a[2])
    [] k = "box3" -> BadBox(a[1]) \/ BadBox(a[2]) \/ BadBox(a[3])
    [] k \in {"ring", "cap"} -> BadRadius(a[1]) \/ BadTurn(a[2])
    [] k = "logring" -> BadLog(a[1]) \/ BadTurn(a[2])
    [] k = "shell" -> BadRadius(a[1])
    [] k = "logshell" -> BadLog(a[1])
    [] k = "sky" -> BadSky(a[1], a[2])
    [] k = "view" -> BadView(a[1], a[2])
    [] k = "map" -> a[1] < 1
    [] k = "fine" -> a[1] < 1 \/ a[2] < 1 \/ a[3] < 1
(* not asked for: a view of negative length, or one logarithmic cell down to the centre *)
Sensible(k, a) == /\ k = "view" => RSign(a[1][1]) > 0 /\ RSign(YLen(k, a[1], a[2])) > 0
                  \* not two long axes at a time
                  /\ k \in {"ring", "cap"} => a[1].n < 50 \/ a[2].n < 50
                  /\ k = "logring" => a[1].n < 10 \/ a[2].n < 50
                  /\ k \in {"sky", "view"} => a[1][2] < 50 \/ (YNum(a[1], a[2]) < 50) \/ a = Limb
                  /\ k \in {"logring", "logshell"} => ~(a[1].zero /\ a[1].n = 1)
---------------------------------------------------------------------------------
Lin(a) == [k \in 1..(a.n + 1) |-> RAdd(a.lo, RMul(Norm(k - 1, a.n), RSub(a.hi, a.lo)))]
RECURSIVE Pow(_, _)
Pow(q, n) == IF n = 0 THEN One ELSE RMul(q, Pow(q, n - 1))
Geo(a) == IF a.zero THEN <<Zero>> \o [k \in 1..a.n |-> RMul(a.lo, Pow(a.ratio, k - 1))]
          ELSE [k \in 1..(a.n + 1) |-> RMul(a.lo, Pow(a.ratio, k - 1))]
Centred(l, n) == Lin(Ax(RMul(<<-1, 2>>, l), RMul(Half, l), n))
Mids(e) == [k \in 1..(Len(e) - 1) |-> RMul(Half, RAdd(e[k], e[k + 1]))]
Widths(e) == [k \in 1..(Len(e) - 1) |-> RSub(e[k + 1], e[k])]
Edges(k, a) ==
  CASE k \in {"ring", "cap", "box2"} -> <<Lin(a[1]), Lin(a[2])>>
    [] k = "box3" -> <<Lin(a[1]), Lin(a[2]), Lin(a[3])>>
    [] k = "logring" -> <<Geo(a[1]), Lin(a[2])>>
    [] k = "shell" -> <<Lin(a[1])>>
    [] k = "logshell" -> <<Geo(a[1])>>
    [] k \in {"sky", "view"} -> <<Centred(a[1][1], a[1][2]), Centred(YLen(k, a[1], a[2]), YNum(a[1], a[2]))>>
(* coordinates of every cell: rows run along the second axis, columns along the first *)
Mesh(m, d) == CASE Len(m) = 1 -> m[1]
                [] Len(m) = 2 -> [y \in 1..Len(m[2]) |-> [x \in 1..Len(m[1]) |-> IF d = 1 THEN m[1][x] ELSE m[2][y]]]
                [] Len(m) = 3 -> [y \in 1..Len(m[2]) |-> [x \in 1..Len(m[1]) |-> [z \in 1..Len(m[3]) |->
                                    CASE d = 1 -> m[1][x] [] d = 2 -> m[2][y] [] d = 3 -> m[3][z]]]]
(* the square of the height of the sphere over the cells of a view *)
Heights(m, r) == [y \in 1..Len(m[2]) |-> [x \in 1..Len(m[1]) |-> RSub(RSq(r), RAdd(RSq(m[1][x]), RSq(m[2][y])))]]
Publish(k, a) == IF k \in {"map", "fine"} THEN [nside |-> a[1]] ELSE
                 LET e == Edges(k, a)
                     m == [d \in 1..Len(e) |-> Mids(e[d])]
                 IN  [edges |-> e, mids |-> m, widths |-> [d \in 1..Len(e) |-> Widths(e[d])],
                      mesh |-> [d \in 1..Len(e) |-> Mesh(m, d)],
                      up |-> IF k = "view" THEN Heights(m, a[3]) ELSE <<>>]
Setup == /\ times < 1
         /\ \E a \in Kinds[kind] : /\ Sensible(kind, a)
                                   /\ asked' = a
                                   /\ \E c \in IF Coordinates[kind] = 0 \/ Refused(kind, a) THEN {0} ELSE 0..4 :
                                        /\ center' = c
                                        /\ grid' = IF Refused(kind, a) \/ c \notin {0, Coordinates[kind]} THEN grid ELSE Publish(kind, a)
         /\ times' = times + 1 /\ UNCHANGED kind
Next == Setup
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------------
(* the cells tile what was asked for, from end to end, without holes *)
Tiles == grid # None /\ kind \notin {"map", "fine"} => \A d \in 1..Len(grid.edges) :
           LET e == grid.edges[d]
           IN  /\ \A k \in 1..(Len(e) - 1) : RLt(e[k], e[k + 1])
               /\ RSum(grid.widths[d]) = RSub(e[Len(e)], e[1])
               /\ \A k \in 1..(Len(e) - 1) : RLt(e[k], grid.mids[d][k]) /\ RLt(grid.mids[d][k], e[k + 1])
Even == grid # None /\ kind \notin {"map", "fine"} => \A d \in 1..Len(grid.edges) :
           (kind \notin {"logring", "logshell"} \/ d > 1) => \A k \in 1..Len(grid.widths[d]) : grid.widths[d][k] = grid.widths[d][1]
InRange == grid # None /\ kind \in {"ring", "cap", "logring"} =>
             /\ RSign(grid.edges[1][1]) >= 0
             /\ \A k \in 1..Len(grid.edges[2]) : RSign(grid.edges[2][k]) >= 0 /\ RLe(grid.edges[2][k], Q(2))
Emit == times = 1 => PrintT("@@" \o ToJson([kind |-> kind, asked |-> asked, center |-> center, refused |-> grid = None, grid |-> grid]))
=================================================================================
