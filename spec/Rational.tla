------------------------------ MODULE Rational ------------------------------
(* Exact rationals <<p, q>>, q > 0, in lowest terms.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RAbs(x) == IF x < 0 THEN -x ELSE x
Q(p, q) == LET g == Gcd(RAbs(p), q) IN <<p \div g, q \div g>>
\* (\div of an exact multiple is exact, whatever the sign)
QAdd(x, y) == LET g == Gcd(x[2], y[2]) IN Q(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
QMul(x, y) == LET g == Gcd(RAbs(x[1]), y[2]) h == Gcd(RAbs(y[1]), x[2]) IN <<(x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g)>>
QInv(x) == <<x[2], x[1]>>      \* x > 0
Zero == <<0, 1>>
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN Zero ELSE QAdd(Head(s), QSum(Tail(s)))
=============================================================================
