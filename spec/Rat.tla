-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<p, q>> with q > 0, always in lowest terms.            *)
EXTENDS Integers
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsR(x) == IF x < 0 THEN -x ELSE x
Rt(p, q) == LET g == Gcd(AbsR(p), q) IN <<p \div g, q \div g>>
RAdd(x, y) == LET g == Gcd(x[2], y[2])
              IN Rt(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), (x[2] \div g) * y[2])
RDivN(x, n) == Rt(x[1], x[2] * n)
RLess(x, y) == x[1] * y[2] < y[1] * x[2]
RLeq(x, y) == x[1] * y[2] <= y[1] * x[2]
=============================================================================
