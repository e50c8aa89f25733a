---------------------------------- MODULE BoxMap ----------------------------------
(* Remapping a box onto a polar grid about a centre (properties D01, E01, Q02): every
   subcell of a polar cell takes the box pixel at its centre, zero outside the box, with
   the subcell's area.  A state is one polar cell of one case.  Lengths are whole numbers
   of a unit of the case, angles steps of pi/720; an axis is <<start, half a subcell,
   cells, subcells per cell>>, a box axis <<start, pixel, pixels>>. *)
EXTENDS Fix, TLC, Json, IOUtils, SequencesExt, FiniteSets

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, row, col,      \* the case and its target cell
          k,                \* subcells visited so far
          total, out, ones, \* their measure; bounds of the sum of measure*field for every field; the same for a field of ones
          share, doubt      \* bounds of every source pixel's measure; undecided subcells
vars == <<i, row, col, k, total, out, ones, share, doubt>>
Init == /\ i \in 1..Len(Given)
        /\ row \in 1..Given[i].rows[3]
        /\ col \in 1..Given[i].cols[3]
        /\ k = 0 /\ total = 0 /\ ones = <<0, 0>> /\ doubt = 0
        /\ out = [n \in 1..Len(Given[i].fields) |-> <<0, 0>>]
        /\ share = << >>
------------------------------------------------------------------------------------
C == Given[i]
At(ax, n, m) == ax[1] + (2 * ((n - 1) * ax[4] + m) + 1) * ax[2]
(* the pixels along an axis that hold a position known up to reach (both times S); 0 is outside *)
Slots(ax, pos, reach) ==
  LET Slot(p) == LET c == (p - ax[1] * S) \div (ax[2] * S) IN IF c >= 0 /\ c < ax[3] THEN c + 1 ELSE 0
  IN  {Slot(pos + d) : d \in {-reach, 0, reach}} \cup
      (IF reach < ax[2] * S THEN {} ELSE {c \in 1..ax[3] : LET a == (ax[1] + (c - 1) * ax[2]) * S IN a < pos + reach /\ a + ax[2] * S > pos - reach})
(* where the sine is 0, 1/2 or 1 the position is known: a boundary may be a hair away *)
Known(ang) == ang % 360 = 0 \/ (ang % 720) \in {120, 600}
Reach(r, ang, wide) == IF wide THEN r + 2 + C.cols[2] * S + r * C.rows[2] * StepS ELSE IF Known(ang) THEN 1 ELSE r + 2
Pixels(y, x, wide) == LET ang == y + C.spin
                    px == C.centre[1] * S + x * FCos(ang)
                    py == C.centre[2] * S + x * FSin(ang)
                IN  {IF a = 0 \/ b = 0 THEN <<0, 0>> ELSE <<a, b>> : a \in Slots(C.x, px, Reach(x, ang + 360, wide)), b \in Slots(C.y, py, Reach(x, ang, wide))}
NSub == C.rows[4] * C.cols[4]
(* the area of a subcell is proportional to the radius of its middle *)
Sub(p, q) == LET y == At(C.rows, row, p)
                 x == At(C.cols, col, q)
             IN  [w |-> x, px |-> Pixels(y, x, FALSE), wide |-> IF C.fields # <<>> THEN {} ELSE Pixels(y, x, TRUE)]
Value(f, p) == IF p[1] = 0 THEN 0 ELSE f[p[2]][p[1]]
Pick(f, px, small) == LET vs == {Value(f, p) : p \in px} IN CHOOSE x \in vs : \A y \in vs : IF small THEN x <= y ELSE x >= y
Least(f, px) == Pick(f, px, TRUE)
Most(f, px) == Pick(f, px, FALSE)
Ones == [b \in 1..C.y[3] |-> [a \in 1..C.x[3] |-> 1]]

(* a cell is filled subcell by subcell *)
Visit == /\ k < NSub
         /\ LET s == Sub(k \div C.cols[4], k % C.cols[4])
            IN  /\ total' = total + s.w
                /\ out' = [n \in 1..Len(C.fields) |-> << out[n][1] + s.w * Least(C.fields[n], s.px),
                                                        out[n][2] + s.w * Most(C.fields[n], s.px) >>]
                /\ ones' = << ones[1] + s.w * Least(Ones, s.px), ones[2] + s.w * Most(Ones, s.px) >>
                /\ share' = IF C.fields # <<>> THEN share
                            ELSE [p \in DOMAIN share \cup s.px \cup s.wide |->
                                   LET old == IF p \in DOMAIN share THEN share[p] ELSE <<0, 0, 0, 0>>
                                       In(set) == IF set = {p} THEN s.w ELSE 0
                                       May(set) == IF p \in set THEN s.w ELSE 0
                                   IN  << old[1] + In(s.px), old[2] + May(s.px), old[3] + In(s.wide), old[4] + May(s.wide) >>]
                /\ doubt' = doubt + (IF Cardinality(s.px) > 1 THEN 1 ELSE 0)
         /\ k' = k + 1
         /\ UNCHANGED <<i, row, col>>
Next == Visit
Spec == Init /\ [][Next]_vars
Done == k = NSub

(* theorems: the subcells tile the ring segment; at most everything is in the box *)
Edge(n) == C.cols[1] + 2 * n * C.cols[4] * C.cols[2]
Tiling == Done => 2 * total = C.rows[4] * C.cols[4] * (Edge(col) + Edge(col - 1))
InBox == 0 <= ones[1] /\ ones[1] <= ones[2] /\ ones[2] <= total
Bounds == \A n \in 1..Len(out) : out[n][1] <= out[n][2]
Inside1 == \A p \in DOMAIN share : 0 <= share[p][1] /\ share[p][1] <= share[p][2] /\ share[p][2] <= total /\ share[p][3] <= share[p][1] /\ share[p][2] <= share[p][4]
(* A pixel's measure, bounded: the subcells surely inside it and those it may touch bound it
   rigorously.  The subcells whose centre it holds are closer: a subcell that is cut lends
   at most half of itself to the other side, and the cut ones are at most half of those
   the rigorous bound leaves open. *)
ShareLow(q) == LET m == q[1] - (q[4] - q[3]) \div 3 IN IF m > q[3] THEN m ELSE q[3]
ShareHigh(q) == LET m == q[2] + (q[4] - q[3]) \div 3 + 1 IN IF m < q[4] THEN m ELSE q[4]
(* the measure inside the box: best and rigorous bounds *)
Out == IF <<0, 0>> \in DOMAIN share THEN share[<<0, 0>>] ELSE <<0, 0, 0, 0>>
Held == IF C.fields # <<>> THEN ones ELSE IF Out[4] = 0 THEN <<total, total>> ELSE <<total - ShareHigh(Out), total - ShareLow(Out)>>
Sure == IF C.fields # <<>> THEN ones ELSE <<total - Out[4], total - Out[3]>>
Emit == Done => LET seen == SetToSeq(DOMAIN share) IN PrintT("@@" \o ToJson(
          [i |-> i, row |-> row, col |-> col, total |-> total, out |-> out, ones |-> Held, sure |-> Sure, centres |-> ones, doubt |-> doubt,
           shares |-> [n \in 1..Len(seen) |-> <<seen[n], ShareLow(share[seen[n]]), ShareHigh(share[seen[n]])>>]]))
====================================================================================
