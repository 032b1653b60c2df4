------------------------------- MODULE Rat -------------------------------
(***************************************************************************)
(* Exact rational numbers.  A number is the pair <<n, d>> of a reduced     *)
(* fraction with d > 0.  TLC's integers have 32 bits, so TLC replaces      *)
(* every operator below by the Java method of the same name                *)
(* (java/Rat.java, BigInteger); the definitions give their meaning, and    *)
(* RatLaws.tla compares the two on small fractions.                        *)
(*                                                                         *)
(* A numeral is a string: "n", "n/d" or "m:e" (the number m * 2^e, the     *)
(* exact value of a float).  Numerals are what specifications keep in      *)
(* state variables and what traces contain; numbers are what they compute  *)
(* with.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Abs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

RQ(n, d) == LET g == Gcd(Abs(n), Abs(d))
                s == IF d < 0 THEN -1 ELSE 1
            IN  <<s * (n \div g), s * (d \div g)>>
RInt(i) == <<i, 1>>
RNum(s) == CHOOSE q \in Int \X Int : TRUE   \* the number a numeral denotes (Java)
RIsNum(s) == TRUE                           \* s is a numeral, not "nan", "inf", "-inf" (Java)
RStr(q) == ""                               \* the canonical numeral of a number (Java)

RAdd(a, b) == RQ(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RQ(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == RQ(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == RQ(a[1] * b[2], a[2] * b[1])
RNeg(a)    == <<-a[1], a[2]>>
RAbs(a)    == <<Abs(a[1]), a[2]>>
RLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
RLt(a, b)  == a[1] * b[2] < b[1] * a[2]
REq(a, b)  == a[1] * b[2] = b[1] * a[2]
RMax(a, b) == IF RLe(b, a) THEN a ELSE b
RMin(a, b) == IF RLe(a, b) THEN a ELSE b

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN RInt(1) ELSE RMul(a, RPow(a, k - 1))
(* binomial coefficient *)
RECURSIVE RBinom(_, _)
RBinom(n, k) == IF k < 0 \/ k > n THEN RInt(0) ELSE IF k = 0 THEN RInt(1)
                ELSE RMul(RBinom(n, k - 1), RQ(n - k + 1, k))
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RInt(0) ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(s, r) == RSum([i \in 1..Len(s) |-> RMul(s[i], r[i])])

(* strings, joined with spaces *)
RECURSIVE RJoin(_)
RJoin(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o " " \o RJoin(Tail(s))

(* Square roots are irrational: RSqrtLo(a) <= sqrt(a) <= RSqrtHi(a), with  *)
(* a gap below 2^-90 relative to sqrt(a).                                  *)
RSqrtLo(a) == CHOOSE s \in Int \X Int : RLe(RMul(s, s), a)
RSqrtHi(a) == CHOOSE s \in Int \X Int : RLe(a, RMul(s, s))

(* The identity on sequences; it only makes TLC keep the elements (Java).   *)
RSeq(s) == s

R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
RHalf == RQ(1, 2)
=============================================================================
