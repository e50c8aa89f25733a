--------------------------------- MODULE GridMap ---------------------------------
(* Remapping whole fields between uniform grids in one to three dimensions (property
   M02): every output cell is the sum of the input values times the product of the
   overlap fractions along the axes.  Cases come from the harness: axes as in
   Grid2Grid (times the unit of the case) and a flat 'C'-ordered field of whole numbers.
   All fractions of a case are written over common denominators. *)
EXTENDS Rat, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, out, k
vars == <<i, out, k>>
C == Given[i]
D == Len(C.ax)
Dx(a) == RDiv(a.len, Q(a.n))
Odx(a) == RDiv(a.olen, Q(a.on))
Overlap(a, q, p) == LET l == RMax(RAdd(a.min, RMul(Q(p), Dx(a))), RAdd(a.omin, RMul(Q(q), Odx(a))))
                        h == RMin(RAdd(a.min, RMul(Q(p + 1), Dx(a))), RAdd(a.omin, RMul(Q(q + 1), Odx(a))))
                    IN IF RLt(l, h) THEN RDiv(RSub(h, l), Odx(a)) ELSE Zero
Table(a) == [q \in 1..a.on |-> [p \in 1..a.n |-> Overlap(a, q - 1, p - 1)]]
Sum(f, n) == RSum([x \in 1..n |-> f[x]])

(* one axis at a time, the last one first: contracts the last axis of a flat field *)
Rows(f, n) == [r \in 1..(Len(f) \div n) |-> SubSeq(f, (r - 1) * n + 1, r * n)]
Contract(f, a) == LET t == Table(a)
                      rows == Rows(f, a.n)
                  IN  [x \in 1..(Len(rows) * a.on) |->
                         LET r == rows[((x - 1) \div a.on) + 1]
                             q == ((x - 1) % a.on) + 1
                         IN  RSum([p \in 1..a.n |-> IF t[q][p] = Zero THEN Zero ELSE RMul(t[q][p], r[p])])]
(* moves the last axis (length n) to the front *)
Turn(f, n) == LET m == Len(f) \div n IN
              [x \in 1..Len(f) |-> f[((x - 1) % m) * n + ((x - 1) \div m) + 1]]

Init == /\ i \in 1..Len(Given) /\ k = 0
        /\ out = [x \in 1..Len(Given[i].f) |-> Q(Given[i].f[x])]
Step == /\ k < D
        /\ LET a == C.ax[D - k] IN out' = Turn(Contract(out, a), a.on)
        /\ k' = k + 1 /\ UNCHANGED i
Next == Step
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Shape == k = D => Len(out) = Prod([d \in 1..D |-> C.ax[d].on])
(* an average lies between the extremes of the field and zero *)
Range == k = D => \A x \in 1..Len(out) :
   /\ \E y \in 1..Len(C.f) : RLe(out[x], Q(MaxI(C.f[y], 0)))
   /\ \E y \in 1..Len(C.f) : RLe(Q(MinI(C.f[y], 0)), out[x])
Emit == k = D => PrintT("@@" \o ToJson([i |-> i, out |-> out]))
================================================================================
