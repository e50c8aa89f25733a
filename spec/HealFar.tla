-------------------------------- MODULE HealFar --------------------------------
(* Ring order in maps with more pixels than 32 bits can count (properties P01, P02):
   a walker starts shortly before the end of a chosen ring, or anywhere in it, and
   takes a few steps, over the end of the ring if it gets there. *)
EXTENDS Heal, Big, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
(* 4 * N - 1 rings still fit; two small maps to compare with the definitions of Heal *)
Maps == IF Thorough
        THEN {6, 35, 16384, 32767, 65536, 100000, 262144, 1000003, 8388608, 16777216, 33554432, 50000001, 67108864,
              134217728, 268435456, 300000000, 536870911}
        ELSE {6, 35, 16384, 100000, 1000003, 16777216, 33554432, 67108864, 268435456, 536870911}
Steps == 4

VARIABLES N, i, j, p, left
vars == <<N, i, j, p, left>>

Rings(n) == {1, 2, 1000, n \div 3, n - 1, n, n + 1, 2 * n, 2 * n + 1, (3 * n) - 1, 3 * n, (3 * n) + 1, (4 * n) - 1000, (4 * n) - 3, (4 * n) - 2}
            \cup (IF Thorough THEN {(n \div 7) * k : k \in 1..27} ELSE {})
Places(len) == {k \in {1, len \div 4, (len \div 7) * 5, len - 2} : k >= 1}

(* the first pixel of a ring: rings above it counted one polar cap and belt at a time *)
First(n, r) == IF r <= n THEN BMul(<<2>>, BMul(BOf(r), BOf(r - 1)))
               ELSE IF r <= 3 * n THEN BAdd(BMul(<<2>>, BMul(BOf(n), BOf(n - 1))), BMul(<<4>>, BMul(BOf(n), BOf(r - n))))
               ELSE LET m == (4 * n) - r IN BSub(BMul(<<12>>, BMul(BOf(n), BOf(n))), BMul(<<2>>, BMul(BOf(m), BOf(m + 1))))
Number(n, r, q) == BSub(BAdd(First(n, r), BOf(q)), <<1>>)

Init == /\ N \in Maps /\ i \in {r \in Rings(N) : r >= 1 /\ r <= NRings(N)} /\ j \in Places(RingLen(N, i)) /\ p = Number(N, i, j) /\ left = Steps
Along == /\ left > 0 /\ j < RingLen(N, i)
         /\ j' = j + 1 /\ p' = BAdd(p, <<1>>) /\ left' = left - 1 /\ UNCHANGED <<N, i>>
NextRing == /\ left > 0 /\ j = RingLen(N, i) /\ i < NRings(N)
            /\ i' = i + 1 /\ j' = 1 /\ p' = BAdd(p, <<1>>) /\ left' = left - 1 /\ UNCHANGED N
Next == Along \/ NextRing
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Numbering == p = Number(N, i, j)
(* twice the plane indices are whole numbers: 2*idash = 2N - i; and for the column, in a
   cap, the gore's middle plus the offset from it *)
Id2 == (2 * N) - i
Cap == North(N, i) \/ South(N, i)
Gor == (j - 1) \div CapRing(N, i)
InG == (j - 1) % CapRing(N, i)
(* twice jdash: gore middle (2g+1)N/2*2 ... in units of a half: N*(2g+1) + 2*InG + 1 - CapRing,
   as a big number since it reaches 8N *)
Jd2 == IF Cap THEN BSub(BAdd(BMul(BOf(N), BOf(2 * Gor + 1)), BOf(2 * InG + 1)), BOf(CapRing(N, i)))
       ELSE BSub(BMul(<<2>>, BOf(j)), BOf(1 + ((i + N) % 2)))
(* twice the diamond indices, shifted by 4N so that they are never negative *)
Up(a, n) == IF n >= 0 THEN BAdd(a, BOf(n)) ELSE BSub(a, BOf(0 - n))
Shifted == BSub(BAdd(Jd2, BMul(<<5>>, BOf(N))), <<1>>)
Is2 == Up(Shifted, 0 - Id2)
Js2 == Up(Shifted, Id2)
(* the small-map definitions say the same where they can be computed *)
Agrees == N < 4096 => /\ RMul(Q(2), IDash(N, i)) = Q(Id2)
                      /\ p = BOf(PixOf(N, i, j))
                      /\ Is2 = BOf(2 * Star(N, i, j)[1] + (4 * N)) /\ Js2 = BOf(2 * Star(N, i, j)[2] + (4 * N))
                      /\ BOf(RMul(Q(2), JDash(N, i, j))[1]) = Jd2
Emit == PrintT("@@" \o ToJson([N |-> N, i |-> i, j |-> j, p |-> p, id |-> Id2, jd |-> Jd2, s |-> <<Is2, Js2>>]))
================================================================================
