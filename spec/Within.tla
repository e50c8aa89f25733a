---------------------------------- MODULE Within ----------------------------------
(* The verdict on Monte Carlo weights.  A target cell's measure is total, of which between
   lin and hin lies in the source; a source pixel is known to hold between lo and hi of
   it.  The observed weight (parts in 10^4, rounded) of n points must lie within 6.5
   standard deviations of the share it estimates, and vanish where the share does. *)
EXTENDS Rat, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, k, sum, bad
vars == <<i, k, sum, bad>>
C == Given[i]
Init == i \in 1..Len(Given) /\ k = 0 /\ sum = 0 /\ bad = 0
(* a/d in parts of M, rounded down, and up, at most M; d > 0 *)
M == 10000
Part(a, d) == LET c == (MaxI(a, d) \div 100000) + 1 IN MinI(M, ((a \div c) * M) \div ((d \div c) + 1))
PartUp(a, d) == LET c == (MaxI(a, d) \div 100000) + 1 IN MinI(M, (((a \div c) + 1) * M) \div MaxI(d \div c, 1) + 1)
N == MaxI(1, ((C.n \div 10) * Part(C.lin, C.total)) \div 1000)    \* points that fall into the source
Src == C.src[k + 1]
Lo == Part(Src[1], C.hin)
Hi == IF Src[2] = 0 THEN 0 ELSE PartUp(Src[2], C.lin)
Var == LET p == IF Lo > M \div 2 THEN Lo ELSE IF Hi < M \div 2 THEN Hi ELSE M \div 2 IN p * (M - p)
Slack == ISqrt((43 * Var) \div N) + 150000 \div N + 2
Odd == \/ Src[2] = 0 /\ Src[3] # 0
       \/ Src[3] < 0
       \/ N >= 100 /\ (Src[3] > Hi + Slack \/ Src[3] < Lo - Slack)
Read == /\ k < Len(C.src)
        /\ bad' = IF bad = 0 /\ Odd THEN k + 1 ELSE bad
        /\ sum' = sum + Src[3] /\ k' = k + 1 /\ UNCHANGED i
Next == Read
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------------
Done == k = Len(C.src)
Sane == k < Len(C.src) /\ C.lin > 0 => Lo <= Hi
(* rounding apart, the weights of a cell add up to one *)
Ok == bad = 0 /\ Abs(sum - M) <= Len(C.src) + 1
Emit == Done => PrintT("@@" \o ToJson([i |-> i, ok |-> Ok, bad |-> bad, sum |-> sum]))
===================================================================================
