-------------------------------- MODULE Flatten --------------------------------
(* Index bookkeeping under the grid-to-grid remapping (property M03): the pixel of a
   uniform grid that holds a point, and the flat 'C'-ordered numbers of the pixels of a
   product of per-axis lists, walked with the last axis fastest.  -1 stands for "no pixel". *)
EXTENDS Rat, TLC, Json, IOUtils

Thorough == IOEnv.TIER = "thorough"
Lists(n) == [1..n -> {-1, 0, 2}] \cup [1..n -> {1, 3}]
Flat2 == [x : UNION {Lists(n) : n \in 1..(IF Thorough THEN 3 ELSE 2)}, y : UNION {Lists(n) : n \in 1..2}, z : {<<>>}, gx : {4}, gy : {4, 5}, gz : {1}]
Flat3 == [x : Lists(1) \cup {<<2, 0>>, <<-1, 3, 1>>}, y : Lists(1) \cup {<<0, -1>>, <<3, 2>>, <<1, -1, 0>>}, z : UNION {Lists(n) : n \in 1..2}, gx : {4}, gy : {4, 5}, gz : {4, 6}]
Dyadic == {Norm(a, 8) : a \in -40..40}
Points == [min : {Zero, <<-3, 4>>, <<5, 2>>}, dx : {Q(1), <<1, 4>>, <<3, 8>>, <<5, 2>>}, x : Dyadic]

VARIABLES kind, c, at, out
vars == <<kind, c, at, out>>
Init == \/ kind = "flat" /\ c \in Flat2 \cup Flat3 /\ at = <<1, 1, 1>> /\ out = <<>>
        \/ kind = "which" /\ c \in Points /\ at = 0 /\ out = <<>>
--------------------------------------------------------------------------------
Three == c.z # <<>>
Number(x, y, z) == IF Three THEN (IF x = -1 \/ y = -1 \/ z = -1 THEN -1 ELSE (x * c.gy + y) * c.gz + z)
                   ELSE (IF x = -1 \/ y = -1 THEN -1 ELSE x * c.gy + y)
Walked == at[1] > Len(c.x)
Walk == /\ kind = "flat" /\ ~Walked
        /\ out' = Append(out, Number(c.x[at[1]], c.y[at[2]], IF Three THEN c.z[at[3]] ELSE 0))
        /\ at' = IF Three /\ at[3] < Len(c.z) THEN <<at[1], at[2], at[3] + 1>>
                 ELSE IF at[2] < Len(c.y) THEN <<at[1], at[2] + 1, 1>>
                 ELSE <<at[1] + 1, 1, 1>>
        /\ UNCHANGED <<kind, c>>
(* the pixel whose half-open extent holds the point, searched from pixel 0 *)
Lower(p) == RAdd(c.min, RMul(Q(p), c.dx))
Holds(p) == RLe(Lower(p), c.x) /\ RLt(c.x, Lower(p + 1))
Search == /\ kind = "which" /\ out = <<>>
          /\ IF Holds(at) THEN out' = <<at>> /\ UNCHANGED at
             ELSE at' = (IF RLt(c.x, Lower(at)) THEN at - 1 ELSE at + 1) /\ UNCHANGED out
          /\ UNCHANGED <<kind, c>>
Next == Walk \/ Search
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
Full == kind = "flat" /\ Walked
Complete == Full => Len(out) = Len(c.x) * Len(c.y) * (IF Three THEN Len(c.z) ELSE 1)
(* numbers lie on the grid, and coordinates can be read back *)
OnGrid == Full => \A k \in 1..Len(out) : out[k] = -1 \/ (0 <= out[k] /\ out[k] < c.gx * c.gy * c.gz)
ReadBack == Full => \A k \in 1..Len(out) : out[k] # -1 =>
              LET nz == IF Three THEN Len(c.z) ELSE 1
                  ny == Len(c.y)
                  z == IF Three THEN c.z[((k - 1) % nz) + 1] ELSE 0
                  y == c.y[(((k - 1) \div nz) % ny) + 1]
                  x == c.x[((k - 1) \div (nz * ny)) + 1]
                  gz == IF Three THEN c.gz ELSE 1
              IN  /\ out[k] % gz = z /\ (out[k] \div gz) % c.gy = y /\ out[k] \div (gz * c.gy) = x
Floor == kind = "which" /\ out # <<>> => out[1] = RFloor(RDiv(RSub(c.x, c.min), c.dx))
Emit == (Full \/ (kind = "which" /\ out # <<>>)) => PrintT("@@" \o ToJson([kind |-> kind, c |-> c, out |-> out]))
================================================================================
