------------------------------ MODULE RatDef ------------------------------
(* The definitions of Rat.tla under names that Java does not override.     *)
EXTENDS Integers, Sequences
DAbs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE DGcd(_, _)
DGcd(a, b) == IF b = 0 THEN a ELSE DGcd(b, a % b)
DQ(n, d) == LET g == DGcd(DAbs(n), DAbs(d))
                s == IF d < 0 THEN -1 ELSE 1
            IN  <<s * (n \div g), s * (d \div g)>>
DAdd(a, b) == DQ(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
DSub(a, b) == DQ(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
DMul(a, b) == DQ(a[1] * b[1], a[2] * b[2])
DDiv(a, b) == DQ(a[1] * b[2], a[2] * b[1])
DLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
RECURSIVE DBinom(_, _)
DBinom(n, k) == IF k < 0 \/ k > n THEN <<0, 1>> ELSE IF k = 0 THEN <<1, 1>>
                ELSE DMul(DBinom(n, k - 1), DQ(n - k + 1, k))
RECURSIVE DPow(_, _)
DPow(a, k) == IF k = 0 THEN <<1, 1>> ELSE DMul(a, DPow(a, k - 1))
=============================================================================
