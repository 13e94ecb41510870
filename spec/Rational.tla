------------------------------- MODULE Rational -------------------------------
(* Exact rationals <<numerator, denominator>> with denominator > 0.        *)
EXTENDS BBN
Rat(n, d) == LET g == Gcd(n, d) IN <<n \div g, d \div g>>
RAdd(x, y) == Rat(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RMul(x, y) == Rat(x[1] * y[1], x[2] * y[2])
RDiv(x, y) == IF y[1] = 0 THEN <<0, 1>> ELSE Rat(x[1] * y[2], x[2] * y[1])
RSum(s) == FoldLeft(RAdd, <<0, 1>>, s)
=============================================================================
