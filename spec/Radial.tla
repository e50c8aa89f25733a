---------------------------------- MODULE Radial ----------------------------------
(* Radial averages of polar arrays and cumulative profiles (properties Q01, Q03), as
   running sums.  Areas are in units of pi; errors are given by their squares. *)
EXTENDS Rat, TLC, Json, IOUtils

Given == JsonDeserialize(IOEnv.CASES)

VARIABLES i, k, sum, out
vars == <<i, k, sum, out>>
C == Given[i]
NR == Len(C.re) - 1
NP == C.np

(* f, w, s: [row of angle][radius];  dphi: cell angle in units of pi; pix: pixel area / pi *)
Ring(m) == RSub(RSq(C.re[m + 1]), RSq(C.re[m]))
Area(m) == RMul(Half, RMul(C.dphi, Ring(m)))
Start == [f |-> Zero, s |-> Zero, wf |-> Zero, w |-> Zero, ws |-> Zero]
Add(t, m, a) == LET r == RDiv(C.pix, Area(m)) IN
   [f |-> RAdd(t.f, C.f[a][m]), s |-> RAdd(t.s, RMul(r, RSq(C.s[a][m]))),
    wf |-> RAdd(t.wf, RMul(C.w[a][m], C.f[a][m])), w |-> RAdd(t.w, C.w[a][m]),
    ws |-> RAdd(t.ws, RMul(r, RSq(RMul(C.w[a][m], C.s[a][m]))))]
Profile(t) == [mean |-> RDiv(t.f, Q(NP)), var |-> RDiv(t.s, Q(NP * NP)),
               wmean |-> IF t.w = Zero THEN <<>> ELSE RDiv(t.wf, t.w),
               wvar |-> IF t.w = Zero THEN <<>> ELSE RDiv(t.ws, RSq(t.w))]

Init == i \in 1..Len(Given) /\ k = 0 /\ sum = Start /\ out = <<>>
(* cell by cell, ring after ring *)
Cell == /\ k < NR * NP
        /\ LET m == (k \div NP) + 1
               t == Add(sum, m, (k % NP) + 1)
           IN IF (k + 1) % NP = 0 THEN out' = Append(out, Profile(t)) /\ sum' = Start
              ELSE out' = out /\ sum' = t
        /\ k' = k + 1 /\ UNCHANGED i
Next == Cell
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Done == k = NR * NP
(* the cells of a full turn tile the disc of the outer edge around that of the inner *)
Tiling == RMul(Q(NP), RSum([m \in 1..NR |-> Area(m)])) =
          RMul(RMul(Half, RMul(Q(NP), C.dphi)), RSub(RSq(C.re[NR + 1]), RSq(C.re[1])))
(* the cumulative profile of the first row of f, and its variance in units of pi^2 *)
RECURSIVE Upto(_), VarUpto(_)
Upto(m) == IF m = 0 THEN Zero ELSE RAdd(Upto(m - 1), RMul(Ring(m), C.f[1][m]))
VarUpto(m) == IF m = 0 THEN Zero ELSE RAdd(VarUpto(m - 1), RSq(RMul(Ring(m), C.s[1][m])))
Mean == Done => \A m \in 1..NR : /\ \E a \in 1..NP : RLe(C.f[a][m], out[m].mean)
                                 /\ \E a \in 1..NP : RLe(out[m].mean, C.f[a][m])
Emit == Done => PrintT("@@" \o ToJson([i |-> i, area |-> [m \in 1..NR |-> Area(m)], out |-> out,
                                       cum |-> [m \in 1..(NR + 1) |-> Upto(m - 1)],
                                       cvar |-> [m \in 1..(NR + 1) |-> VarUpto(m - 1)]]))
================================================================================
