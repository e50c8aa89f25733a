-------------------------------- MODULE Grid2Grid --------------------------------
(* The loop that finds, for one output pixel of a uniform grid, the input pixels under
   it and their weights (property M02).  It starts at the input pixel holding the
   output pixel's lower edge and looks at floor(dx2/dx1) + 2 pixels.  The result must
   be the exact overlap fractions. *)
EXTENDS Rat, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
Lens == {<<1, 1>>, <<5, 2>>} \cup (IF Thorough THEN {<<3, 1>>} ELSE {})
Mins == {Zero, <<-3, 4>>} \cup (IF Thorough THEN {<<1, 3>>} ELSE {})
Ns == IF Thorough THEN 1..6 ELSE {1, 2, 3, 5}
OutLens == {<<1, 2>>, <<1, 1>>, <<7, 3>>} \cup (IF Thorough THEN {<<5, 1>>} ELSE {})
OutMins == {Zero, <<1, 2>>, <<-5, 4>>, <<-1, 10>>} \cup (IF Thorough THEN {<<7, 3>>, <<-4, 1>>} ELSE {})
OutNs == IF Thorough THEN {1, 2, 3, 4, 7} ELSE {1, 2, 3, 4}

VARIABLES ax, k, i, w, rows
vars == <<ax, k, i, w, rows>>
Axes == [len : Lens, min : Mins, n : Ns, olen : OutLens, omin : OutMins, on : OutNs]
Dx == RDiv(ax.len, Q(ax.n))
Odx == RDiv(ax.olen, Q(ax.on))
Lo(p) == RAdd(ax.min, RMul(Q(p), Dx))
Olo(q) == RAdd(ax.omin, RMul(Q(q), Odx))
Overlap(q, p) == LET l == RMax(Lo(p), Olo(q)) h == RMin(Lo(p + 1), Olo(q + 1))
                 IN IF RLt(l, h) THEN RDiv(RSub(h, l), Odx) ELSE Zero
NoWeights == [p \in 1..ax.n |-> Zero]
Which(x) == RFloor(RDiv(RSub(x, ax.min), Dx))
Reach == RFloor(RDiv(Odx, Dx)) + 2

Init == ax \in Axes /\ k = 0 /\ i = 0 /\ w = NoWeights /\ rows = <<>>
Look == /\ k < ax.on /\ i < Reach
        /\ LET p == Which(Olo(k)) + i IN
           w' = IF p \in 0..(ax.n - 1) THEN [w EXCEPT ![p + 1] = Overlap(k, p)] ELSE w
        /\ i' = i + 1 /\ UNCHANGED <<ax, k, rows>>
Leave == /\ k < ax.on /\ i = Reach
         /\ rows' = Append(rows, w) /\ w' = NoWeights /\ k' = k + 1 /\ i' = 0 /\ UNCHANGED ax
Next == Look \/ Leave
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Complete == i = Reach => \A p \in 0..(ax.n - 1) : w[p + 1] = Overlap(k, p)
Bounded == RLe(RSum(w), One)
(* what the output holds of an input pixel is the part of it the output box covers *)
Conserved == k = ax.on => \A p \in 0..(ax.n - 1) :
   RMul(Odx, RSum([q \in 1..ax.on |-> rows[q][p + 1]])) =
   LET l == RMax(Lo(p), ax.omin) h == RMin(Lo(p + 1), RAdd(ax.omin, ax.olen)) IN IF RLt(l, h) THEN RSub(h, l) ELSE Zero
Emit == k = ax.on => PrintT("@@" \o ToJson([ax |-> ax, w |-> rows]))
================================================================================
