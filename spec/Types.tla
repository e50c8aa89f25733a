---------------------------------- MODULE Types ----------------------------------
(* Numbers, not number types, are what a call is about (property N02).  The arguments of a
   question are handed over one after the other, each in some type that holds it exactly;
   the answer is that of the numbers, as precise as the coarsest type. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)      \* per question: for each argument the types it may come in, and their bits
VARIABLES i, as, bits
vars == <<i, as, bits>>
Q == Given[i]
Init == i \in 1..Len(Given) /\ as = <<>> /\ bits = 53
Min(a, b) == IF a < b THEN a ELSE b
Hand == /\ Len(as) < Len(Q)
        /\ \E k \in 1..Len(Q[Len(as) + 1]) :
             as' = Append(as, Q[Len(as) + 1][k].type) /\ bits' = Min(bits, Q[Len(as) + 1][k].bits)
        /\ UNCHANGED i
Spec == Init /\ [][Hand]_vars
----------------------------------------------------------------------------------
Precise == \A n \in 1..Len(as) : \E k \in 1..Len(Q[n]) : Q[n][k].type = as[n] /\ bits <= Q[n][k].bits
Emit == Len(as) = Len(Q) => PrintT("@@" \o ToJson([i |-> i, as |-> as, bits |-> bits]))
==================================================================================
