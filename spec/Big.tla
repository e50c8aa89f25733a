---------------------------------- MODULE Big ----------------------------------
(* Natural numbers beyond TLC's 32 bits: sequences of decimal digits in groups of
   four, least significant first, without leading zero groups. *)
EXTENDS Naturals, Sequences
Base == 10000
RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BOf(n \div Base)
Dig(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BAddC(_, _, _, _)
BAddC(a, b, k, c) == IF k > Len(a) /\ k > Len(b) THEN BOf(c)
                     ELSE LET s == Dig(a, k) + Dig(b, k) + c IN <<s % Base>> \o BAddC(a, b, k + 1, s \div Base)
BAdd(a, b) == BTrim(BAddC(a, b, 1, 0))
(* a - b for a >= b *)
RECURSIVE BSubC(_, _, _, _)
BSubC(a, b, k, c) == IF k > Len(a) THEN <<>>
                     ELSE LET s == (Dig(a, k) + Base) - (Dig(b, k) + c)
                          IN <<s % Base>> \o BSubC(a, b, k + 1, IF s < Base THEN 1 ELSE 0)
BSub(a, b) == BTrim(BSubC(a, b, 1, 0))
RECURSIVE BScaleC(_, _, _, _)
BScaleC(a, d, k, c) == IF k > Len(a) THEN BOf(c)
                       ELSE LET s == a[k] * d + c IN <<s % Base>> \o BScaleC(a, d, k + 1, s \div Base)
RECURSIVE BMulK(_, _, _)
BMulK(a, b, k) == IF k > Len(b) THEN <<>> ELSE BAdd(BScaleC(a, b[k], 1, 0), LET r == BMulK(a, b, k + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r)
BMul(a, b) == BTrim(BMulK(a, b, 1))
================================================================================
