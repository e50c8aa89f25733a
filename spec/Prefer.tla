---------------------------------- MODULE Prefer ----------------------------------
(* Verdict on draws that should prefer larger weights (property R04): c counts in how
   many of n draws each element came out, m of Len(w) elements being drawn each time. *)
EXTENDS Rat, TLC, Json, IOUtils
Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, a, b, ok
vars == <<i, a, b, ok>>
C == Given[i]
K == Len(C.w)
Init == i \in 1..Len(Given) /\ a = 1 /\ b = 1 /\ ok = TRUE
(* 6.5 standard deviations of a difference of two counts *)
Slack == (13 * (ISqrt(C.n) + 1)) \div 2
Pair == /\ C.w[a] > C.w[b] => C.c[a] > C.c[b] - Slack
        /\ (C.w[a] >= 4 * C.w[b] /\ C.m * 2 <= K) => C.c[a] > C.c[b] + Slack
Look == /\ a <= K
        /\ ok' = (ok /\ Pair)
        /\ IF b = K THEN a' = a + 1 /\ b' = 1 ELSE a' = a /\ b' = b + 1
        /\ UNCHANGED i
Next == Look
Spec == Init /\ [][Next]_vars
Emit == a > K => PrintT("@@" \o ToJson([i |-> i, ok |-> ok]))
================================================================================
