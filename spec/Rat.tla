---------------------------------- MODULE Rat ----------------------------------
(* Exact rational arithmetic.  A rational is <<numerator, denominator>> in lowest
   terms with a positive denominator.  TLC's integers have 32 bits and it stops
   with an error on overflow, so a result is either exact or not there at all. *)
EXTENDS Integers, Sequences

Abs(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n < 0 THEN -1 ELSE IF n = 0 THEN 0 ELSE 1
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Norm(n, d) == LET g == Gcd(Abs(n), Abs(d))
                  s == Sign(d)
              IN  <<s * (n \div g), s * (d \div g)>>
Q(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
Half == <<1, 2>>

(* sums over the least common denominator and products reduced crosswise first,
   to stay within 32 bits as long as the result does *)
RAdd(a, b) == LET g == Gcd(a[2], b[2])
                  p == a[2] \div g
                  q == b[2] \div g
              IN  Norm(a[1] * q + b[1] * p, p * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero
              ELSE LET g == Gcd(Abs(a[1]), b[2])
                       h == Gcd(Abs(b[1]), a[2])
                   IN  <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == IF a[1] > 0 THEN <<a[2], a[1]>> ELSE <<-a[2], -a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RSq(a) == RMul(a, a)

RSign(a) == Sign(a[1])
RLt(a, b) == RSign(RSub(a, b)) < 0
RLe(a, b) == RSign(RSub(a, b)) <= 0
REq(a, b) == a = b
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RAbs(a) == <<Abs(a[1]), a[2]>>

(* floor and ceiling (\div rounds towards minus infinity) *)
RFloor(a) == a[1] \div a[2]
RCeil(a) == -((-a[1]) \div a[2])

RECURSIVE RSum(_)
RSum(s) == CASE Len(s) = 0 -> Zero
             [] Len(s) = 1 -> s[1]
             [] OTHER -> RAdd(RSum(SubSeq(s, 1, Len(s) \div 2)), RSum(SubSeq(s, Len(s) \div 2 + 1, Len(s))))

RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF lo = hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m - 1)
(* the largest k with k*k <= n; n < 2^31 *)
ISqrt(n) == Bisect(n, 0, MinI(n, 46340))
================================================================================
