--------------------------------- MODULE Grids ---------------------------------
(* Uniform grids (properties G01, G02).

   An axis is walked edge by edge; product grids and equal-area polar grids are
   put together from walked axes.  All numbers are exact; angles are in units of pi. *)
EXTENDS Rat, TLC, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
Lens == {Q(1), <<5, 2>>, <<1, 10>>, Q(7)} \cup (IF Thorough THEN {<<1, 1000>>, Q(300)} ELSE {})
Mins == {Q(0), <<-3, 2>>, Q(4)} \cup (IF Thorough THEN {<<-1, 3>>, Q(-100)} ELSE {})
Nums == {1, 2, 3, 7} \cup (IF Thorough THEN {4, 12, 33} ELSE {})
Axes == {[len |-> l, min |-> m, n |-> n] : l \in Lens, m \in Mins, n \in Nums}
        \cup {[len |-> Q(7), min |-> <<-3, 2>>, n |-> 1000], [len |-> Q(1), min |-> Q(0), n |-> 641]}
Wide == {<<[len |-> Q(7), min |-> Q(4), n |-> 300], [len |-> Q(1), min |-> Q(0), n |-> 30]>>,
         <<[len |-> Q(7), min |-> Q(4), n |-> 5], [len |-> Q(1), min |-> Q(0), n |-> 700]>>,
         <<[len |-> Q(7), min |-> Q(4), n |-> 40], [len |-> Q(1), min |-> Q(-1), n |-> 3], [len |-> Q(2), min |-> Q(0), n |-> 60]>>}
Few == << [len |-> Q(1), min |-> Q(0), n |-> 2], [len |-> <<5, 2>>, min |-> Q(0), n |-> 3],
          [len |-> Q(1), min |-> <<-3, 2>>, n |-> 1], [len |-> Q(7), min |-> Q(4), n |-> 2],
          [len |-> Q(1), min |-> Q(4), n |-> 3] >>
Rings == [nr : {1, 2, 3, 5} \cup (IF Thorough THEN {4, 8, 11} ELSE {}), base : {1, 3, 4, 6}, rmax : {Q(1), <<5, 2>>}] \cup {[nr |-> 50, base |-> 3, rmax |-> Q(2)]}
(* how many cells there are, ring by ring *)
Counts == [nr : {40, 182, 1000, 20000}, base : {1, 4, 5}]

VARIABLES kind,   \* "axis", "grid" or "rings"
          spec,   \* the axis, the sequence of axes, or the ring grid
          edges,  \* edges walked so far (axis), or cells listed so far (rings)
          done
vars == <<kind, spec, edges, done>>

Init == /\ edges = <<>> /\ done = FALSE
        /\ \/ kind = "axis" /\ spec \in Axes
           \/ kind = "grid" /\ \E d \in 2..3 : \E c \in [1..d -> 1..Len(Few)] : spec = [k \in 1..d |-> Few[c[k]]]
           \/ kind = "grid" /\ spec \in Wide
           \/ kind = "rings" /\ spec \in Rings
           \/ kind = "count" /\ \E c \in Counts : spec = [nr |-> c.nr, base |-> c.base, ring |-> 0, n |-> 0]

Step(ax) == RDiv(ax.len, Q(ax.n))
Edge(ax, k) == RAdd(ax.min, RMul(Q(k), Step(ax)))
Mid(ax, k) == RMul(Half, RAdd(Edge(ax, k - 1), Edge(ax, k)))
Mids(ax) == [k \in 1..ax.n |-> Mid(ax, k)]

WalkAxis == /\ kind = "axis" /\ ~done
            /\ edges' = Append(edges, Edge(spec, Len(edges)))
            /\ done' = (Len(edges) = spec.n)
            /\ UNCHANGED <<kind, spec>>
MakeGrid == /\ kind = "grid" /\ ~done /\ done' = TRUE
            /\ edges' = [k \in 1..Len(spec) |-> Mids(spec[k])]
            /\ UNCHANGED <<kind, spec>>
(* ring i = 0.. holds base*(2i+1) cells *)
RingCells(i) == [j \in 1..(spec.base * (2 * i + 1)) |->
                   [r |-> RMul(spec.rmax, Norm(2 * i + 1, 2 * spec.nr)),
                    p |-> Norm(2 * j - 1, spec.base * (2 * i + 1)),
                    area |-> RMul(RSub(RSq(RMul(spec.rmax, Norm(i + 1, spec.nr))), RSq(RMul(spec.rmax, Norm(i, spec.nr)))),
                                  Norm(1, spec.base * (2 * i + 1)))]]   \* in units of pi
RECURSIVE RingsUpTo(_)
RingsUpTo(i) == IF i < 0 THEN <<>> ELSE RingsUpTo(i - 1) \o RingCells(i)
ListRings == /\ kind = "rings" /\ ~done /\ done' = TRUE
             /\ edges' = RingsUpTo(spec.nr - 1)
             /\ UNCHANGED <<kind, spec>>
CountRing == /\ kind = "count" /\ ~done
             /\ spec' = [spec EXCEPT !.ring = @ + 1, !.n = @ + spec.base * (2 * spec.ring + 1)]
             /\ done' = (spec.ring + 1 = spec.nr) /\ UNCHANGED <<kind, edges>>
Next == CountRing \/ WalkAxis \/ MakeGrid \/ ListRings
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------------
Tiles == kind = "axis" /\ done => /\ Len(edges) = spec.n + 1
                                  /\ edges[1] = spec.min
                                  /\ edges[spec.n + 1] = RAdd(spec.min, spec.len)
                                  /\ \A k \in 1..spec.n : RSub(edges[k + 1], edges[k]) = Step(spec)
(* edges come back from midpoints and the cell width *)
Invertible == kind = "axis" /\ done => \A k \in 1..spec.n :
                 /\ edges[k] = RSub(Mid(spec, k), RMul(Half, Step(spec)))
                 /\ edges[k + 1] = RAdd(Mid(spec, k), RMul(Half, Step(spec)))
EqualArea == kind = "rings" /\ done => /\ Len(edges) = spec.base * spec.nr * spec.nr
                                       /\ \A c \in 1..Len(edges) : RMul(edges[c].area, Q(Len(edges))) = RSq(spec.rmax)
Emit == done => PrintT("@@" \o ToJson(
          CASE kind = "axis" -> [kind |-> kind, ax |-> spec, edges |-> edges, mids |-> Mids(spec)]
            [] kind = "grid" -> [kind |-> kind, ax |-> spec, mids |-> edges]
            [] kind = "count" -> [kind |-> kind, nr |-> spec.nr, base |-> spec.base, n |-> spec.n]
            [] kind = "rings" -> [kind |-> kind, ax |-> spec, r |-> [c \in 1..Len(edges) |-> edges[c].r],
                                  p |-> [c \in 1..Len(edges) |-> edges[c].p], area |-> edges[1].area, n |-> Len(edges)]))
================================================================================
