-------------------------------- MODULE HealBound --------------------------------
(* Tracing the outline of a HEALPix pixel in the projection plane (property P04).

   A pen goes clockwise round the diamond from its left corner, leaving on every side
   a number of evenly spaced marks that include both ends of the side.  The marks are
   shared out over the sides as evenly as possible. *)
EXTENDS Heal, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
Maps == IF Thorough THEN {1, 2, 3, 4, 7, 8, 16, 100, 1000, 4096} ELSE {1, 2, 3, 8, 1000}
Sizes(n) == IF Thorough THEN (8..24) \cup {40, 41, 100, 203} ELSE {8, 9, 11, 12, 14, 40} \cup (IF n = 8 THEN {203} ELSE {})

VARIABLES N, pix, share, path, side, k
vars == <<N, pix, share, path, side, k>>

Some(n) == {<<r, q>> \in {1, n, n + 1, 2 * n, 3 * n, 4 * n - 1} \X {1, 2, n, 3 * n, 4 * n} : r <= NRings(n) /\ q <= RingLen(n, r)}
Pixels(n) == IF n <= (IF Thorough THEN 4 ELSE 2) THEN {<<r, q>> \in (1..NRings(n)) \X (1..(4 * n)) : q <= RingLen(n, r)} ELSE Some(n)
(* how many marks each of the four sides gets *)
Shares(s) == {f \in [1..4 -> {s \div 4, (s + 3) \div 4}] : f[1] + f[2] + f[3] + f[4] = s}

Init == /\ N \in Maps /\ pix \in Pixels(N)
        /\ share \in UNION {Shares(s) : s \in Sizes(N)}
        /\ path = <<>> /\ side = 1 /\ k = 0

Corner(c) == PlaneCorners(N, pix[1], pix[2])[((c - 1) % 4) + 1]
At(c, n, m) == LET a == Corner(c) b == Corner(c + 1) f == Norm(m, n - 1)
               IN <<RAdd(a[1], RMul(f, RSub(b[1], a[1]))), RAdd(a[2], RMul(f, RSub(b[2], a[2])))>>
Mark == /\ side <= 4 /\ k < share[side]
        /\ path' = Append(path, At(side, share[side], k)) /\ k' = k + 1
        /\ UNCHANGED <<N, pix, share, side>>
Turn == side <= 4 /\ k = share[side] /\ side' = side + 1 /\ k' = 0 /\ UNCHANGED <<N, pix, share, path>>
Next == Mark \/ Turn
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Middle == <<CentreX(N, pix[1], pix[2]), CentreY(N, pix[1])>>
Off(p) == <<RSub(p[1], Middle[1]), RSub(p[2], Middle[2])>>
(* every mark lies on the diamond *)
OnEdge == path # <<>> => LET o == Off(path[Len(path)]) IN RAdd(RAbs(o[1]), RAbs(o[2])) = Delta(N)
(* the pen never turns back: each step is clockwise about the centre *)
Clockwise == [][path' # path /\ path # <<>> =>
                LET a == Off(path[Len(path)]) b == Off(path'[Len(path')])
                IN RLe(RSub(RMul(a[1], b[2]), RMul(a[2], b[1])), Zero)]_vars
Closed == side = 5 => path[1] = path[Len(path)]
Emit == side = 5 => PrintT("@@" \o ToJson([N |-> N, p |-> PixOf(N, pix[1], pix[2]), share |-> share, path |-> path]))
================================================================================
