---------------------------------- MODULE CubeMap ----------------------------------
(* Remapping a cube onto shells of HEALPix pixels about a centre (properties D02, E02).
   A shell pixel is cut into smaller HEALPix pixels (the diamonds within its diamond)
   and thinner shells; each takes the cube cell at its centre, in whichever periodic
   image of the cube that lies, zero outside, with the volume of its shell.  A state is
   one shell pixel of one case, being filled.  cols = <<start, half a subcell, shells,
   subshells>>, a cube axis <<start, cell, cells>>, images <<first, last>> along each axis. *)
EXTENDS HealLook, TLC, Json, IOUtils, SequencesExt, FiniteSets

Given == JsonDeserialize(IOEnv.CASES)
VARIABLES i, row, col,      \* the case and its target cell
          star,             \* the diamond indices of the target pixel
          k,                \* subcells visited so far
          total, out, ones, \* their measure; bounds of the sum of measure*field for every field; the same for a field of ones
          share, doubt      \* bounds of every source pixel's measure; undecided subcells
vars == <<i, row, col, star, k, total, out, ones, share, doubt>>
--------------------------------------------------------------------------------
C == Given[i]
N == C.nside
K == C.split                   \* small pixels along a pixel's side
(* ring and position of a pixel, its diamond indices, and the direction of a small pixel in it *)
RingOf(p) == CHOOSE r \in 1..NRings(N) : RingStart(N, r) <= p /\ p < RingStart(N, r) + RingLen(N, r)
Corner(p) == LET r == RingOf(p) IN Star(N, r, p - RingStart(N, r) + 1)
Small(a, b) == <<K * star[1] + a, K * star[2] + b>>
Direction(a, b) == LET s == Small(a, b)
                       r == 2 * N * K + s[1] - s[2]
                       j == StarPix(N * K, s[1], s[2]) - RingStart(N * K, r) + 1
                   IN  [v |-> CentreDir(N * K, r, j), known |-> KnownDir(N * K, r, j)]
Init == /\ i \in 1..Len(Given)
        /\ row \in 1..NPix(Given[i].nside)
        /\ col \in 1..Given[i].cols[3]
        /\ star = Corner(row - 1)
        /\ k = 0 /\ total = 0 /\ ones = <<0, 0>> /\ doubt = 0
        /\ out = [n \in 1..Len(Given[i].fields) |-> <<0, 0>>]
        /\ share = << >>
Shell(n, m) == C.cols[1] + (2 * ((n - 1) * C.cols[4] + m) + 1) * C.cols[2]
NSub == K * K * C.cols[4]

(* the cells along an axis that may hold a position (times S) known up to reach; 0 is outside all images *)
Slots(ax, pos, reach) ==
  LET lo == (pos - reach - ax[1] * S) \div (ax[2] * S)
      hi == (pos + reach - ax[1] * S) \div (ax[2] * S)
  IN  {IF c >= 0 /\ c < ax[3] THEN c + 1 ELSE 0 : c \in lo..hi}
Images(ax, im, pos, reach) ==
  LET each == [n \in im[1]..im[2] |-> Slots(ax, pos + n * ax[2] * ax[3] * S, reach)]
      cells == UNION {each[n] : n \in im[1]..im[2]} \ {0}
  IN  IF \E n \in im[1]..im[2] : 0 \notin each[n] THEN cells ELSE cells \cup {0}
Reach(r, wide) == 4 * r + 10 + (IF wide THEN C.cols[2] * S + r * (33000 \div (N * K)) ELSE 0)
(* a coordinate that is known without error: a boundary may be a hair away *)
Cells(dir, r, wide) == LET A(n) == Images(C.axes[n], C.images[n], C.centre[n] * S + r * dir.v[n], IF dir.known[n] /\ ~wide THEN 1 ELSE Reach(r, wide))
                     IN  {IF a = 0 \/ b = 0 \/ c = 0 THEN <<0, 0, 0>> ELSE <<a, b, c>> : a \in A(1), b \in A(2), c \in A(3)}
(* the volume of a thin shell: (m+h)^3 - (m-h)^3 = 2h(3 m^2 + h^2); alone in its shell it may as well be 1 *)
Alone == C.cols[4] = 1
Sub(n) == LET r == Shell(col, n \div (K * K))
              v == Direction((n % (K * K)) \div K, n % K)
          IN  [w |-> IF Alone THEN 1 ELSE 3 * r * r + C.cols[2] * C.cols[2], px |-> Cells(v, r, FALSE), wide |-> IF C.fields # <<>> THEN {} ELSE Cells(v, r, TRUE)]
Value(f, p) == IF p[1] = 0 THEN 0 ELSE f[p[2]][p[1]][p[3]]
Pick(f, px, small) == LET vs == {Value(f, p) : p \in px} IN CHOOSE x \in vs : \A y \in vs : IF small THEN x <= y ELSE x >= y
Least(f, px) == Pick(f, px, TRUE)
Most(f, px) == Pick(f, px, FALSE)
OneOf(px) == {IF p[1] = 0 THEN 0 ELSE 1 : p \in px}
(* a cell is filled subcell by subcell *)
Visit == /\ k < NSub
         /\ LET s == Sub(k)
            IN  /\ total' = total + s.w
                /\ out' = [n \in 1..Len(C.fields) |-> << out[n][1] + s.w * Least(C.fields[n], s.px),
                                                        out[n][2] + s.w * Most(C.fields[n], s.px) >>]
                /\ ones' = << ones[1] + s.w * (IF 0 \in OneOf(s.px) THEN 0 ELSE 1), ones[2] + s.w * (IF 1 \in OneOf(s.px) THEN 1 ELSE 0) >>
                /\ share' = IF C.fields # <<>> THEN share
                            ELSE [p \in DOMAIN share \cup s.px \cup s.wide |->
                                   LET old == IF p \in DOMAIN share THEN share[p] ELSE <<0, 0, 0, 0>>
                                       In(set) == IF set = {p} THEN s.w ELSE 0
                                       May(set) == IF p \in set THEN s.w ELSE 0
                                   IN  << old[1] + In(s.px), old[2] + May(s.px), old[3] + In(s.wide), old[4] + May(s.wide) >>]
                /\ doubt' = doubt + (IF Cardinality(s.px) > 1 THEN 1 ELSE 0)
         /\ k' = k + 1
         /\ UNCHANGED <<i, row, col, star>>
Next == Visit
Spec == Init /\ [][Next]_vars
Done == k = NSub

(* theorems: subcells fill the shell; small pixels are distinct, and exist; bounds are bounds *)
Edge(n) == C.cols[1] + 2 * n * C.cols[4] * C.cols[2]
Cube(x) == x * x * x
Tiling == Done => IF Alone THEN total = K * K ELSE 2 * C.cols[2] * total = K * K * (Cube(Edge(col)) - Cube(Edge(col - 1)))
Nested == k = 0 => Cardinality({StarPix(N * K, Small(a, b)[1], Small(a, b)[2]) : a \in 0..(K - 1), b \in 0..(K - 1)} \ {-1}) = K * K
InBox == 0 <= ones[1] /\ ones[1] <= ones[2] /\ ones[2] <= total
Bounds == \A n \in 1..Len(out) : out[n][1] <= out[n][2]
Inside1 == \A p \in DOMAIN share : 0 <= share[p][1] /\ share[p][1] <= share[p][2] /\ share[p][2] <= total /\ share[p][3] <= share[p][1] /\ share[p][2] <= share[p][4]
(* A pixel's measure, bounded: the subcells surely inside it and those it may touch bound it
   rigorously.  The subcells whose centre it holds are closer: a subcell that is cut lends
   at most half of itself to the other side, and the cut ones are at most half of those
   the rigorous bound leaves open. *)
ShareLow(q) == LET m == q[1] - (q[4] - q[3]) \div 3 IN IF m > q[3] THEN m ELSE q[3]
ShareHigh(q) == LET m == q[2] + (q[4] - q[3]) \div 3 + 1 IN IF m < q[4] THEN m ELSE q[4]
(* the measure inside the box: best and rigorous bounds *)
Out == IF <<0, 0, 0>> \in DOMAIN share THEN share[<<0, 0, 0>>] ELSE <<0, 0, 0, 0>>
Held == IF C.fields # <<>> THEN ones ELSE IF Out[4] = 0 THEN <<total, total>> ELSE <<total - ShareHigh(Out), total - ShareLow(Out)>>
Sure == IF C.fields # <<>> THEN ones ELSE <<total - Out[4], total - Out[3]>>
Emit == Done => LET seen == SetToSeq(DOMAIN share) IN PrintT("@@" \o ToJson(
          [i |-> i, row |-> row, col |-> col, total |-> total, out |-> out, ones |-> Held, sure |-> Sure, centres |-> ones, doubt |-> doubt,
           shares |-> [n \in 1..Len(seen) |-> <<seen[n], ShareLow(share[seen[n]]), ShareHigh(share[seen[n]])>>]]))
====================================================================================
