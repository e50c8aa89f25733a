---------------------------------- MODULE Rebin ----------------------------------
(* One-dimensional rebinning (property M01) as a sweep: old and new bins are walked
   together and every stretch they have in common is counted once.  The result must
   agree with the definition: each new bin is the mean over old bins, each counted
   with the fraction of it that the new bin covers. *)
EXTENDS Rat, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
Given == JsonDeserialize(IOEnv.CASES)

(* edge positions in quarters for the enumerated cases *)
RECURSIVE Sorted(_, _)
Sorted(S, done) == IF S = {} THEN done
                   ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN Sorted(S \ {m}, Append(done, Norm(m, 4)))
OldSets == {{0, 4, 8, 12}, {0, 8}, {0, 1, 9}, {2, 3, 4, 12}} \cup (IF Thorough THEN {{4, 8, 9, 10}, {0, 5, 6, 12}} ELSE {})
NewPts == IF Thorough THEN {-2, 0, 1, 4, 6, 8, 11, 12, 15} ELSE {-2, 0, 3, 4, 6, 8, 12, 15}
NewSets == {S \in SUBSET NewPts : \E a, b \in S : a # b}
Values(n) == [k \in 1..n |-> Norm(k * k - 3, 2)]
Weights(n) == [k \in 1..n |-> Norm(((k * 2) % 3) + 1, 2)]
Sigmas(n) == [k \in 1..n |-> Norm(k + 1, 3)]
Made == {LET e == Sorted(O, <<>>) n == Len(e) - 1 IN
         [i |-> 0, old |-> e, new |-> Sorted(M, <<>>), f |-> Values(n), w |-> Weights(n), s |-> Sigmas(n)] :
         O \in OldSets, M \in NewSets}
Ask == {[i |-> k, old |-> Given[k].old, new |-> Given[k].new, f |-> Given[k].f, w |-> Given[k].w, s |-> Given[k].s] :
        k \in 1..Len(Given)}

VARIABLES c, a, b, sum, out
vars == <<c, a, b, sum, out>>

(* sums of f, f*v, f*s^2, and the same with weights: f*w, f*w*v, f*s^2*w^2 *)
None == [n |-> 0, g |-> Zero, v |-> Zero, s |-> Zero, gw |-> Zero, vw |-> Zero, sw |-> Zero]
Count(t, f, k) == [n |-> t.n + 1,
                g |-> RAdd(t.g, f), v |-> RAdd(t.v, RMul(f, c.f[k])), s |-> RAdd(t.s, RMul(f, RSq(c.s[k]))),
                gw |-> RAdd(t.gw, RMul(f, c.w[k])), vw |-> RAdd(t.vw, RMul(f, RMul(c.w[k], c.f[k]))),
                sw |-> RAdd(t.sw, RMul(f, RSq(RMul(c.w[k], c.s[k]))))]
Lo(e, k) == e[k]
Hi(e, k) == e[k + 1]
NOld == Len(c.old) - 1
NNew == Len(c.new) - 1
Share(k, q) == LET lo == RMax(Lo(c.old, k), Lo(c.new, q))
                   hi == RMin(Hi(c.old, k), Hi(c.new, q))
               IN IF RLt(lo, hi) THEN RDiv(RSub(hi, lo), RSub(Hi(c.old, k), Lo(c.old, k))) ELSE Zero
(* covered nothing: no value *)
Close(t) == IF t.n = 0 THEN <<>>
            \* the error is the root of s over g (the root of sw over gw with weights)
            ELSE [v |-> RDiv(t.v, t.g), s |-> t.s, g |-> t.g, sw |-> t.sw, gw |-> t.gw,
                  vw |-> IF t.gw = Zero THEN <<>> ELSE RDiv(t.vw, t.gw)]

Init == c \in Made \cup Ask /\ a = 1 /\ b = 1 /\ sum = None /\ out = <<>>
Sweep == /\ b <= NNew /\ a <= NOld
         /\ LET f == Share(a, b)
                t == IF f = Zero THEN sum ELSE Count(sum, f, a)
            IN  IF RLe(Hi(c.new, b), Hi(c.old, a))
                THEN out' = Append(out, Close(t)) /\ sum' = None /\ b' = b + 1 /\ a' = a
                ELSE out' = out /\ sum' = t /\ b' = b /\ a' = a + 1
         /\ UNCHANGED c
Rest == /\ b <= NNew /\ a > NOld
        /\ out' = Append(out, Close(sum)) /\ sum' = None /\ b' = b + 1 /\ UNCHANGED <<c, a>>
Next == Sweep \/ Rest
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
RECURSIVE All(_, _, _)
All(k, q, t) == IF k > NOld THEN t
                ELSE LET f == Share(k, q) IN All(k + 1, q, IF f = Zero THEN t ELSE Count(t, f, k))
Done == b > NNew
Definition == Done => out = [q \in 1..NNew |-> Close(All(1, q, None))]
(* a mean lies between the least and the greatest value *)
Between == Done => \A q \in 1..NNew : out[q] # <<>> =>
   /\ \E k \in 1..NOld : RLe(c.f[k], out[q].v)
   /\ \E k \in 1..NOld : RLe(out[q].v, c.f[k])
Emit == Done => PrintT("@@" \o ToJson([i |-> c.i, old |-> c.old, new |-> c.new, f |-> c.f, w |-> c.w, s |-> c.s, out |-> out,
                     used |-> [q \in 1..NNew |-> [k \in 1..NOld |-> IF Share(k, q) = Zero THEN 0 ELSE 1]]]))
================================================================================
