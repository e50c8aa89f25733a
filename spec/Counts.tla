---------------------------------- MODULE Counts ----------------------------------
(* The verdict on counted random outcomes.  A case gives the number of draws n, the
   whole-number weight of every outcome (W in all) and how often it came out.  Outcomes are read
   one by one; each must lie within 6.5 standard deviations of its share, and the
   squared deviations together within 6.5 standard deviations of what they should be. *)
EXTENDS Rat, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, k, seen, wsum, chi, bad
vars == <<i, k, seen, wsum, chi, bad>>
C == Given[i]
K == Len(C.w)
W == C.W

Init == i \in 1..Len(Given) /\ k = 0 /\ seen = 0 /\ wsum = 0 /\ chi = 0 /\ bad = 0
(* the expected count, rounded; and the square of the deviation in thousandths of it *)
Expect(w) == (C.n \div W) * w + (((C.n % W) * w) + (W \div 2)) \div W
Dev == C.c[k + 1] - Expect(C.w[k + 1])
Sq(d) == IF Abs(d) > 40000 THEN 1600000000 ELSE d * d
Limit(e) == 43 * e + 60 
Odd == \/ C.w[k + 1] = 0 /\ C.c[k + 1] > 0
       \/ C.w[k + 1] > 0 /\ Sq(Dev) > Limit(MinI(Expect(C.w[k + 1]), 20000000))
Share(d, e) == IF Sq(d) > 1000000 THEN MinI(Sq(d) \div MaxI(e, 1), 1000000) * 100 ELSE (Sq(d) * 100) \div MaxI(e, 1)
Read == /\ k < K
        /\ bad' = IF bad = 0 /\ Odd THEN k + 1 ELSE bad
        /\ chi' = MinI(chi + Share(Dev, Expect(C.w[k + 1])), 100000000)
        /\ seen' = seen + C.c[k + 1] /\ wsum' = wsum + C.w[k + 1] /\ k' = k + 1 /\ UNCHANGED i
Next == Read
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
(* chi^2 of K outcomes: K + 6.5 sqrt(2K) + 30 is beyond its 1e-9 tail *)
ChiLimit == 100 * (K + (13 * (ISqrt(2 * K) + 1)) \div 2 + 30)
Small == C.n \div W < 20          \* too few draws per outcome for the sum
Total == k = K => wsum = W
Ok == seen = C.n /\ bad = 0 /\ (Small \/ chi <= ChiLimit)
Emit == k = K => PrintT("@@" \o ToJson([i |-> i, ok |-> Ok, bad |-> bad, chi |-> chi, seen |-> seen]))
================================================================================
