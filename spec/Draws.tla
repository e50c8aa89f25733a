---------------------------------- MODULE Draws ----------------------------------
(* Random draws as a sequence of choices (properties R04, R05).  Every complete path of
   choices is an outcome; its weight is the product of the weights of its choices, over
   a total that is the same for all outcomes of a task. *)
EXTENDS Rat, FiniteSets, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
P(n, d) == Norm(n, d)
Probs == {<<Half>>, <<P(1, 4), P(3, 4)>>, <<Zero, Half, One>>, <<P(1, 10), P(9, 10), Half>>,
          <<One, One>>, <<Zero, Zero, Zero>>, <<P(1, 3), P(2, 3), Zero, P(1, 2)>>}
Weights == {<<Half>>, <<Zero, P(1, 4), One, P(5, 4)>>, <<P(15, 4), Q(2), P(1, 10)>>, <<P(9, 10), P(9, 10)>>,
            <<Q(3), Q(0), Q(1)>>, <<P(1, 4000)>>, <<P(9999, 5000)>>, <<P(1, 3), P(7, 3), P(8, 3)>>,
            <<P(2000001, 2), P(1, 1000)>>, <<P(1000000001, 2), P(999, 1000)>>} \cup (IF Thorough THEN {<<P(1, 20), P(41, 20), P(19, 20), Half>>} ELSE {})
Sizes == IF Thorough THEN 1..5 ELSE 1..4
Tasks == {[kind |-> "shuffle", n |-> n, m |-> n, p |-> <<>>] : n \in Sizes}
    \cup {[kind |-> "draw", n |-> n, m |-> m, p |-> <<>>] : n \in 2..5, m \in 0..4}
    \cup {[kind |-> "keep", n |-> Len(p), m |-> 0, p |-> p] : p \in Probs}
    \cup {[kind |-> "round", n |-> Len(w), m |-> 0, p |-> w] : w \in Weights}

VARIABLES task, out, weight, total
vars == <<task, out, weight, total>>
Init == /\ task \in {t \in Tasks : t.kind # "draw" \/ t.m < t.n}
        /\ out = <<>> /\ weight = 1 /\ total = 1
InSeq(x, s) == \E k \in 1..Len(s) : s[k] = x
(* one after the other without putting back: m-1, m-2, ... equally likely choices *)
Pick == /\ task.kind \in {"shuffle", "draw"} /\ Len(out) < task.m
        /\ \E x \in 1..task.n : ~InSeq(x, out) /\ out' = Append(out, x)
        /\ UNCHANGED <<task, weight>> /\ total' = total * (task.n - Len(out))
(* keep an element with its probability *)
Toss == /\ task.kind = "keep" /\ Len(out) < task.n
        /\ LET p == task.p[Len(out) + 1] IN
           \/ p[1] > 0 /\ out' = Append(out, 1) /\ weight' = weight * p[1] /\ total' = total * p[2]
           \/ p[1] < p[2] /\ out' = Append(out, 0) /\ weight' = weight * (p[2] - p[1]) /\ total' = total * p[2]
        /\ UNCHANGED task
(* round a weight up with the probability of its fraction *)
Round == /\ task.kind = "round" /\ Len(out) < task.n
         /\ LET p == task.p[Len(out) + 1]
                f == RSub(p, Q(RFloor(p)))
            IN \/ f[1] > 0 /\ out' = Append(out, RFloor(p) + 1) /\ weight' = weight * f[1] /\ total' = total * f[2]
               \/ f[1] < f[2] /\ out' = Append(out, RFloor(p)) /\ weight' = weight * (f[2] - f[1]) /\ total' = total * f[2]
         /\ UNCHANGED task
Next == Pick \/ Toss \/ Round
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Done == CASE task.kind \in {"shuffle", "draw"} -> Len(out) = task.m [] OTHER -> Len(out) = task.n
Distinct == task.kind \in {"shuffle", "draw"} => \A a, b \in 1..Len(out) : out[a] = out[b] => a = b
Sound == weight <= total
(* probability 0 is never kept, probability 1 always; whole weights stay *)
Certain == task.kind = "keep" => \A k \in 1..Len(out) : (task.p[k] = Zero => out[k] = 0) /\ (task.p[k] = One => out[k] = 1)
Whole == task.kind = "round" => \A k \in 1..Len(out) : task.p[k][2] = 1 => out[k] = task.p[k][1]
Binary(v) == [k \in 1..Len(v) |-> MinI(v[k], 1)]
Emit == Done => PrintT("@@" \o ToJson([task |-> task, out |-> out, weight |-> weight, total |-> total, binary |-> Binary(out)]))
================================================================================
