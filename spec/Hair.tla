---------------------------------- MODULE Hair ----------------------------------
(* Points a hair's breadth off the axes (properties C01, C02): the direction of a quarter
   turn, moved sideways by 2^-e.  Coordinates and angle are pairs <<whole, hairs>>: so many
   units (or quarter turns) and so many hairs. *)
EXTENDS Integers, Sequences, TLC, Json

Exponents == 4..60
VARIABLES k, side, e,   \* the quarter, the side, the breadth of the hair
          x, y,         \* the coordinates: <<whole, hairs>>
          at            \* the angle found: <<quarters, hairs>>, or <<>>
vars == <<k, side, e, x, y, at>>
Cos(q) == CASE q = 0 -> 1 [] q = 2 -> -1 [] OTHER -> 0
Sin(q) == CASE q = 1 -> 1 [] q = 3 -> -1 [] OTHER -> 0
Init == /\ k \in 0..3 /\ side \in {-1, 0, 1} /\ e \in Exponents /\ at = <<>>
        /\ x = <<Cos(k), -side * Sin(k)>> /\ y = <<Sin(k), side * Cos(k)>>
(* the angle read off the coordinates, in [0, 4] quarters: the side of the positive x axis
   decides between the beginning of the turn and its end *)
Read == /\ at = <<>>
        /\ at' = IF x[1] > 0 THEN IF y[2] < 0 THEN <<4, y[2]>> ELSE <<0, y[2]>>
                 ELSE IF y[1] > 0 THEN <<1, -x[2]>>
                 ELSE IF x[1] < 0 THEN <<2, -y[2]>> ELSE <<3, x[2]>>
        /\ UNCHANGED <<k, side, e, x, y>>
Next == Read
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------------
Done == at # <<>>
Same == Done => at[2] = side /\ (at[1] - k) % 4 = 0
InTurn == Done => (at[1] = 0 => at[2] >= 0) /\ (at[1] = 4 => at[2] < 0)
Emit == Done => PrintT("@@" \o ToJson([e |-> e, x |-> x, y |-> y, at |-> at]))
================================================================================
