------------------------------ MODULE Decimal ------------------------------
(* Exact decimal numbers <<m, e>> = m * 10^e, normalised: m is 0 (and e is 0) or not a multiple of 10.               *)
EXTENDS Integers, Sequences
RECURSIVE Pow10(_), Norm(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
\* (% is taken of the absolute value)
Abs(x) == IF x < 0 THEN -x ELSE x
Norm(d) == IF d[1] = 0 THEN <<0, 0>> ELSE IF Abs(d[1]) % 10 = 0 THEN Norm(<<(IF d[1] < 0 THEN -1 ELSE 1) * (Abs(d[1]) \div 10), d[2] + 1>>) ELSE d
Shift(d, k) == IF d[1] = 0 THEN d ELSE <<d[1], d[2] + k>>
Min(a, b) == IF a < b THEN a ELSE b
At(d, e) == IF d[1] = 0 THEN 0 ELSE d[1] * Pow10(d[2] - e)
Add(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE LET e == Min(a[2], b[2]) IN Norm(<<At(a, e) + At(b, e), e>>)
Neg(a) == <<-a[1], a[2]>>
Half(a) == Norm(<<5 * a[1], a[2] - 1>>)
Less(a, b) == Add(a, Neg(b))[1] < 0
Positive(a) == a[1] > 0
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN <<0, 0>> ELSE Add(Head(s), Sum(Tail(s)))
=============================================================================
