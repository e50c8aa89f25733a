-------------------------------- MODULE HealNeigh --------------------------------
(* Which HEALPix pixels touch which (property P03): two pixels are neighbours if
   they have a corner point of the sky in common (an edge has two). *)
EXTENDS Heal, FiniteSets, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
Full == IF Thorough THEN {1, 2, 3, 4, 5, 6, 7, 8, 9, 16} ELSE {1, 2, 3, 4, 5, 8}
Sampled == IF Thorough THEN {17, 32, 50} ELSE {16, 21}
(* of larger maps only the places next to the pixel are looked at *)
Large == IF Thorough THEN {64, 100, 257, 1000, 2048, 4095} ELSE {100, 1000, 2048}

SampleRings(n) == {1, 2, n - 1, n, n + 1, 2 * n, 3 * n - 1, 3 * n, 3 * n + 1, 4 * n - 2, 4 * n - 1}
SamplePos(n, r) == LET len == RingLen(n, r) IN
   {k \in {1, 2, len \div 4, (len \div 4) + 1, len \div 2, len - 1, len} : k >= 1}
Pixels(n) == IF n \in Full THEN {<<r, k>> \in (1..NRings(n)) \X (1..(4 * n)) : k <= RingLen(n, r)}
             ELSE UNION {{<<r, k>> : k \in SamplePos(n, r)} : r \in SampleRings(n)}

(* a neighbour lies at most two rings away, except around a pole of the smallest maps *)
Near(n, r) == {s \in 1..NRings(n) : Abs(s - r) <= MaxI(2, IF n <= 2 THEN 8 ELSE 2)}
CornerRow(n, r) == [k \in 1..RingLen(n, r) |-> Corners(n, r, k)]
CornerTable == [n \in Full |-> [r \in 1..NRings(n) |-> CornerRow(n, r)]]
CornersOf(n, r, k) == IF n \in Full THEN CornerTable[n][r][k] ELSE Corners(n, r, k)

(* the positions of ring s closest in longitude to position k of ring r *)
Beside(n, r, k, s) == LET len == RingLen(n, s)
                          mid == ((2 * k - 1) * len) \div (2 * RingLen(n, r))
                      IN {((mid + d) % len) + 1 : d \in (0 - 4)..4}
Looked(n, r, k, s) == IF n \in Large THEN Beside(n, r, k, s) ELSE 1..RingLen(n, s)

VARIABLES N, pix, neigh
vars == <<N, pix, neigh>>
Init == N \in Full \cup Sampled \cup Large /\ pix \in Pixels(N) /\ neigh = {}
Look == /\ neigh = {}
        /\ LET mine == CornersOf(N, pix[1], pix[2]) IN
           neigh' = UNION {{<<s, k>> : k \in {q \in Looked(N, pix[1], pix[2], s) : CornersOf(N, s, q) \cap mine # {}}} : s \in Near(N, pix[1])}
                    \ {pix}
        /\ UNCHANGED <<N, pix>>
Next == Look
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Corner4 == Cardinality(CornersOf(N, pix[1], pix[2])) = 4
(* eight neighbours, seven where three facets meet; six on the smallest map, where
   every pixel is such a place *)
Count == neigh # {} => Cardinality(neigh) \in (IF N = 1 THEN {6, 7} ELSE {7, 8})
Mutual == neigh # {} => \A q \in neigh : CornersOf(N, q[1], q[2]) \cap CornersOf(N, pix[1], pix[2]) # {}
Emit == neigh # {} => PrintT("@@" \o ToJson([N |-> N, p |-> PixOf(N, pix[1], pix[2]), s |-> Star(N, pix[1], pix[2]),
                                             nb |-> {Star(N, q[1], q[2]) : q \in neigh}]))
================================================================================
