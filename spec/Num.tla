-------------------------------- MODULE Num --------------------------------
(* Nonnegative decimal numbers with four significant digits <<m, e>> (m * 10^e),
   for quantities the integers of TLC are too small for.                       *)
EXTENDS Integers, Sequences
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m < 0 THEN <<-1, 0>>
              ELSE IF m >= 10000 THEN Norm((m + 5) \div 10, e + 1)
              ELSE IF m < 1000 THEN Norm(m * 10, e - 1) ELSE <<m, e>>
RECURSIVE P10(_)
P10(n) == IF n <= 0 THEN 1 ELSE 10 * P10(n - 1)
Dec(i, e) == Norm(i, e)
Mul(a, b) == Norm(a[1] * b[1], a[2] + b[2])
Div(a, b) == Norm((a[1] * 100000) \div b[1], a[2] - b[2] - 5)
Add(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
             ELSE LET hi == IF a[2] >= b[2] THEN a ELSE b
                      lo == IF a[2] >= b[2] THEN b ELSE a
                      d == hi[2] - lo[2]
                  IN IF d > 5 THEN hi ELSE Norm(hi[1] * P10(d) + lo[1], lo[2])
Ge(a, b) == IF b[1] = 0 THEN TRUE ELSE IF a[1] = 0 THEN FALSE ELSE a[2] > b[2] \/ (a[2] = b[2] /\ a[1] >= b[1])
\* equal within t thousandths
Close(a, b, t) == IF a[1] <= 0 \/ b[1] <= 0 THEN a = b
                  ELSE IF a[2] - b[2] \notin -1..1 THEN FALSE
                  ELSE LET e == IF a[2] < b[2] THEN a[2] ELSE b[2]
                           A == a[1] * P10(a[2] - e)
                           B == b[1] * P10(b[2] - e)
                           D == IF A > B THEN A - B ELSE B - A
                       IN D * 1000 <= t * (IF A > B THEN A ELSE B)
=============================================================================
