-------------------------------- MODULE PolarRot --------------------------------
(* Turning a full-circle polar array (property C06).

   The state is an array of n angular rows; each step turns it by a shift measured
   in cells.  Two steps are taken from every array, so that compositions are seen. *)
EXTENDS Rat, TLC, Json, IOUtils

Tier == IOEnv.TIER
Rows == IF Tier = "thorough" THEN {1, 2, 3, 4, 5, 7, 12} ELSE {1, 2, 3, 5, 8}
Cols == IF Tier = "thorough" THEN {1, 2, 4} ELSE {1, 3}
Ws == {Zero, <<1, 4>>, <<2, 3>>}
(* a hair more or less than whole cells *)
Hairs == {<<1, 4096>>, <<4095, 4096>>, <<1, 16777216>>, <<16777215, 16777216>>}
Shifts(n) == {RAdd(Q(k), w) : k \in 0..(n - 1), w \in Ws} \ {Zero}
First(n) == IF n > 50 THEN {Q(1), <<131, 2>>, Q(77), <<299, 3>>} ELSE Shifts(n) \cup (IF n > 5 THEN {} ELSE {RAdd(Q(k), w) : k \in 0..(n - 1), w \in Hairs})

Fields == {"bump", "mixed"}
Val(kind, i, j) == IF kind = "bump" THEN (IF i = 1 THEN Q(j) ELSE Zero)
                   ELSE Q(((3 * i * i + 7 * i * j + 5 * j + 1) % 11) - 4)

VARIABLES f,      \* the array: f[row][column]
          first,  \* the array at the start
          path    \* shifts taken so far
vars == <<f, first, path>>
Init == \E n \in Rows \cup {100}, m \in Cols, kind \in Fields :
          f = [i \in 1..n |-> [j \in 1..m |-> Val(kind, i, j)]] /\ first = f /\ path = <<>>

Wrap(n, x) == ((x - 1) % n) + 1
Turned(g, s) == LET n == Len(g)
                    k == RFloor(s)
                    w == RSub(s, Q(k))
                IN  [i \in 1..n |-> [j \in 1..Len(g[1]) |->
                       RAdd(RMul(RSub(One, w), g[Wrap(n, i + k)][j]), RMul(w, g[Wrap(n, i + k + 1)][j]))]]
Kept(n, s) == n <= 5 \/ (s[1] % 3 = 1)
Turn == /\ Len(path) < 2
        /\ \E s \in (IF path = <<>> THEN First(Len(f)) ELSE IF path[1][2] > 100 \/ Len(f) > 50 THEN {} ELSE Shifts(Len(f))) :
              /\ Len(path) = 1 => Kept(Len(f), s) /\ (Tier = "thorough" \/ (path[1][1] + s[1]) % 2 = 0)
              /\ f' = Turned(f, s) /\ path' = Append(path, s)
        /\ UNCHANGED first
Next == Turn
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------------
ColSum(g, j) == RSum([i \in 1..Len(g) |-> g[i][j]])
MassKept == [][\A j \in 1..Len(f[1]) : ColSum(f', j) = ColSum(f, j)]_vars
(* whole cells compose *)
Whole(s) == s[2] = 1
Composes == \A a, b \in 1..(Len(f) - 1) :
   path = <<>> /\ Len(f) < 50 => Turned(Turned(f, Q(a)), Q(b)) = IF a + b = Len(f) THEN f ELSE Turned(f, Q((a + b) % Len(f)))
Emit == path # <<>> => PrintT("@@" \o ToJson([path |-> path, first |-> first, f |-> f]))
================================================================================
