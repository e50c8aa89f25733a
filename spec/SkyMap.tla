---------------------------------- MODULE SkyMap ----------------------------------
(* Remapping a HEALPix map onto a target grid on the sky (properties D03-D05, E03, E04).
   A target cell is cut into subcells; each takes the pixel at its centre with the
   subcell's measure.  A state is one target cell of one case.
     ring:  polar cap about a centre,   columns = angle from the centre, rows = angle around it
     box:   longitude-latitude box about a centre, rows = latitude, columns = longitude
     ortho: orthographic view, columns = x, rows = y
   Angles in steps of pi/720; a grid axis is <<start, half a subcell, cells, subcells per cell>>. *)
EXTENDS HealLook, TLC, Json, IOUtils, SequencesExt, FiniteSets

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, row, col,      \* the case and its target cell
          k,                \* subcells visited so far
          total, out, ones, \* their measure; bounds of the sum of measure*field for every field; the same for a field of ones
          share, doubt      \* bounds of every source pixel's measure; undecided subcells
vars == <<i, row, col, k, total, out, ones, share, doubt>>
Init == /\ i \in 1..Len(Given)
        /\ row \in 1..Given[i].rows[3]
        /\ col \in 1..Given[i].cols[3]
        /\ k = 0 /\ total = 0 /\ ones = <<0, 0>> /\ doubt = 0
        /\ out = [n \in 1..Len(Given[i].fields) |-> <<0, 0>>]
        /\ share = << >>
------------------------------------------------------------------------------------
C == Given[i]
(* centre of subcell m = 0.. of cell n = 1.. on an axis *)
At(ax, n, m) == ax[1] + (2 * ((n - 1) * ax[4] + m) + 1) * ax[2]

(* from the grid's own frame to the sky: the frame's centre is carried along its meridian
   to the colatitude of the target, then turned in longitude *)
Place(v) == CASE C.kind = "ring" -> RotZ(RotY(v, C.centre[2]), C.centre[1])
              [] C.kind = "box" -> RotZ(RotY(RotX(v, C.spin), C.centre[2] - 360), C.centre[1])
              [] C.kind = "ortho" -> RotZ(RotY(RotZ(v, 360), C.centre[2]), C.centre[1])
Blur == 12

RingSub(y, x) == [v |-> Place(Vec(y + C.spin, x)), w |-> FSin(x), d |-> Blur]
BoxSub(y, x) == [v |-> Place(Vec(x, 360 - y)), w |-> FCos(y), d |-> Blur]
OrthoSub(y, x) == LET r == C.radius
                      n == r * r - x * x - y * y
                      xs == Dv(x * S, r)
                      ys == Dv(y * S, r)
                      zs == FSqrt(MaxF(S * S - xs * xs - ys * ys, 0))
                  IN  IF n > 0 THEN [v |-> Place(<<xs, ys, zs>>), w |-> 1, d |-> Blur + (S \div MaxF(zs, 100))]
                      ELSE [v |-> <<0, 0, 0>>, w |-> 0, d |-> 0]
Raw(p, q) == LET y == At(C.rows, row, p)
                 x == At(C.cols, col, q)
             IN  CASE C.kind = "ring" -> RingSub(y, x) [] C.kind = "box" -> BoxSub(y, x) [] C.kind = "ortho" -> OrthoSub(y, x)
(* a subcell's measure and the pixels it may fall into *)
Sub(p, q) == LET s == Raw(p, q) IN
  [w |-> s.w, px |-> IF s.w = 0 THEN {} ELSE Look(C.nside, s.v, s.d),
   wide |-> IF C.fields # <<>> \/ s.w = 0 THEN {} ELSE Look(C.nside, s.v, s.d + StepS * (C.rows[2] + C.cols[2]))]
NSub == C.rows[4] * C.cols[4]
Pick(f, px, small) == LET vs == {f[p + 1] : p \in px} IN CHOOSE x \in vs : \A y \in vs : IF small THEN x <= y ELSE x >= y
Least(f, px) == IF px = {} THEN 0 ELSE Pick(f, px, TRUE)
Most(f, px) == IF px = {} THEN 0 ELSE Pick(f, px, FALSE)
Hits(px) == IF px # {} /\ \A p \in px : p \in 0..(NPix(C.nside) - 1) THEN 1 ELSE 0

(* a cell is filled subcell by subcell *)
Visit == /\ k < NSub
         /\ LET s == Sub(k \div C.cols[4], k % C.cols[4])
            IN  /\ total' = total + s.w
                /\ out' = [n \in 1..Len(C.fields) |-> << out[n][1] + s.w * Least(C.fields[n], s.px),
                                                        out[n][2] + s.w * Most(C.fields[n], s.px) >>]
                /\ ones' = << ones[1] + s.w * Hits(s.px), ones[2] + s.w * Hits(s.px) >>
                /\ share' = IF C.fields # <<>> THEN share
                            ELSE [p \in DOMAIN share \cup s.px \cup s.wide |->
                                   LET old == IF p \in DOMAIN share THEN share[p] ELSE <<0, 0, 0, 0>>
                                       In(set) == IF set = {p} THEN s.w ELSE 0
                                       May(set) == IF p \in set THEN s.w ELSE 0
                                   IN  << old[1] + In(s.px), old[2] + May(s.px), old[3] + In(s.wide), old[4] + May(s.wide) >>]
                /\ doubt' = doubt + (IF Cardinality(s.px) > 1 THEN 1 ELSE 0)
         /\ k' = k + 1
         /\ UNCHANGED <<i, row, col>>
Next == Visit
Spec == Init /\ [][Next]_vars
(* the centre of an orthographic cell decides whether it is on the sphere: 1 on, 0 off, 2 exactly at the limb *)
CellMid(ax, n) == ax[1] + (2 * (n - 1) + 1) * ax[2] * ax[4]
Seen == IF C.kind # "ortho" THEN 1
        ELSE LET x == CellMid(C.cols, col)
                 y == CellMid(C.rows, row)
                 n == C.radius * C.radius - x * x - y * y
             IN  IF n > 0 THEN 1 ELSE IF n = 0 THEN 2 ELSE 0

Done == k = NSub

(* theorems: every subcell finds a pixel, a field of ones gives one, shares are parts of the whole *)
Found == ones = <<total, total>>
Inside1 == \A p \in DOMAIN share : p \in 0..(NPix(C.nside) - 1) /\ 0 <= share[p][1] /\ share[p][1] <= share[p][2] /\ share[p][2] <= total /\ share[p][3] <= share[p][1] /\ share[p][2] <= share[p][4]
Bounds == \A n \in 1..Len(out) : out[n][1] <= out[n][2]
(* A pixel's measure, bounded: the subcells surely inside it and those it may touch bound it
   rigorously.  The subcells whose centre it holds are closer: a subcell that is cut lends
   at most half of itself to the other side, and the cut ones are at most half of those
   the rigorous bound leaves open. *)
ShareLow(q) == LET m == q[1] - (q[4] - q[3]) \div 3 IN IF m > q[3] THEN m ELSE q[3]
ShareHigh(q) == LET m == q[2] + (q[4] - q[3]) \div 3 + 1 IN IF m < q[4] THEN m ELSE q[4]
Emit == Done => LET px == SetToSeq(DOMAIN share) IN PrintT("@@" \o ToJson(
          [i |-> i, row |-> row, col |-> col, seen |-> Seen, total |-> total, out |-> out, ones |-> ones, sure |-> ones, doubt |-> doubt,
           shares |-> [n \in 1..Len(px) |-> <<px[n], ShareLow(share[px[n]]), ShareHigh(share[px[n]])>>]]))
====================================================================================
