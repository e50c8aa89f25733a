-------------------------------- MODULE HealIndex --------------------------------
(* Walking the pixels of a HEALPix map in ring order (properties P01, P02, P04).

   Small maps are walked pixel by pixel; of large ones both ends and the middle of
   chosen rings are looked at. *)
EXTENDS Heal, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
Walked == IF Thorough THEN (1..14) \cup {16, 32} ELSE {1, 2, 3, 4, 5, 8}
(* large maps: pixel numbers still fit (12 * 8192^2 < 2^31); the exact centre
   coordinates only up to 4096 *)
Large == IF Thorough THEN {17, 33, 64, 100, 256, 1000, 1023, 4096, 8192} ELSE {32, 33, 256, 1000, 8192}

VARIABLES N, i, j, p
vars == <<N, i, j, p>>

ChosenRings(n) == {1, 2, 3, n \div 2, n - 1, n, n + 1, 2 * n, 3 * n - 1, 3 * n, 3 * n + 1, 4 * n - 3, 4 * n - 2, 4 * n - 1}
                  \cup (IF Thorough THEN {(n * k) \div 7 : k \in 1..27} ELSE {n \div 7, (n * 19) \div 7, (n * 25) \div 7}) 
ChosenPos(len) == {k \in {1, 2, len \div 4, (len \div 4) + 1, len \div 2, (len * 5) \div 7, len - 1, len} : k >= 1}

Init == \/ N \in Walked /\ i = 1 /\ j = 1 /\ p = 0
        \/ N \in Large /\ i \in {r \in ChosenRings(N) : r >= 1 /\ r <= NRings(N)}
           /\ j \in ChosenPos(RingLen(N, i)) /\ p = PixOf(N, i, j)

Along == /\ N \in Walked /\ j < RingLen(N, i)
         /\ j' = j + 1 /\ p' = p + 1 /\ UNCHANGED <<N, i>>
NextRing == /\ N \in Walked /\ j = RingLen(N, i) /\ i < NRings(N)
            /\ i' = i + 1 /\ j' = 1 /\ p' = p + 1 /\ UNCHANGED N
Next == Along \/ NextRing
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------------
Numbering == p = PixOf(N, i, j) /\ p \in 0..(NPix(N) - 1)
Last == (i = NRings(N) /\ j = RingLen(N, i)) <=> (p = NPix(N) - 1)
Fits == N <= 4096
(* the diamond indices are whole numbers and lead back to the centre *)
Stars == Fits => /\ IStarQ(N, i, j)[2] = 1 /\ JStarQ(N, i, j)[2] = 1
                 /\ RMul(Half, RAdd(Norm(2 * Star(N, i, j)[1] + 1, 2), RSub(Norm(2 * Star(N, i, j)[2] + 1, 2), Q(N)))) = JDash(N, i, j)
                 /\ RMul(Half, RSub(Q(Star(N, i, j)[2]), Q(Star(N, i, j)[1]))) = IDash(N, i)
Centre == Fits => /\ RLt(RAbs(CentreY(N, i)), Half)
                  /\ RLe(Zero, CentreLon(N, i, j)) /\ RLt(CentreLon(N, i, j), Q(2))
Emit == PrintT("@@" \o ToJson(
   IF Fits THEN [N |-> N, i |-> i, j |-> j, p |-> p, lon |-> CentreLon(N, i, j), z |-> CentreZ(N, i),
                 x |-> CentreX(N, i, j), y |-> CentreY(N, i), d |-> <<IDash(N, i), JDash(N, i, j)>>, s |-> Star(N, i, j)]
   ELSE [N |-> N, i |-> i, j |-> j, p |-> p]))
================================================================================
