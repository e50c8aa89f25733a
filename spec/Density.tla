--------------------------------- MODULE Density ---------------------------------
(* From a tabulated density to its cumulative distribution (property R03): the edges of
   the uniform bins, the running share of the total, and the normalised density. *)
EXTENDS Rat, TLC, Json, IOUtils
Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, x, cdf
vars == <<i, x, cdf>>
C == Given[i]
N == Len(C.pdf)
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE s[k] + Total(s, k - 1)
(* first bin centre, bin width, whole-number heights (in units of C.unit) *)
Init == /\ i \in 1..Len(Given)
        /\ x = <<RSub(Given[i].first, RMul(Half, Given[i].dx))>> /\ cdf = <<Zero>>
Step == /\ Len(x) <= N
        /\ x' = Append(x, RAdd(x[Len(x)], C.dx))
        /\ cdf' = Append(cdf, RAdd(cdf[Len(x)], Norm(C.pdf[Len(x)], Total(C.pdf, N))))
        /\ UNCHANGED i
Next == Step
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Done == Len(x) = N + 1
Density(k) == RDiv(Norm(C.pdf[k], Total(C.pdf, N)), C.dx)
Rising == \A k \in 2..Len(cdf) : RLe(cdf[k - 1], cdf[k])
Ends == Done => cdf[1] = Zero /\ cdf[N + 1] = One
Centres == \A k \in 2..Len(x) : RMul(Half, RAdd(x[k - 1], x[k])) = RAdd(C.first, RMul(Q(k - 2), C.dx))
Unit == Done => RMul(C.dx, RSum([k \in 1..N |-> Density(k)])) = One
Emit == Done => PrintT("@@" \o ToJson([i |-> i, x |-> x, cdf |-> cdf, norm |-> [k \in 1..N |-> Density(k)]]))
================================================================================
