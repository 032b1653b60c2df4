------------------------------ MODULE RatLaws ------------------------------
(* The Java arithmetic agrees with the definitions, for every pair of      *)
(* fractions with numerator in -N..N and denominator in 1..D, and obeys    *)
(* the laws that pin down numerals, square roots, sums.                    *)
EXTENDS Rat, RatDef, TLC
CONSTANTS N, D
VARIABLE x   \* <<numerator, denominator>> pairs under test
Num(p) == RQ(p[1], p[2])
Is(q, p) == RStr(q) = RStr(Num(p))       \* canonical numerals coincide
Pairs == (-N..N) \X (1..D)
Init == x \in Pairs \X Pairs
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
a == x[1]
b == x[2]
Laws ==
  /\ Is(RAdd(Num(a), Num(b)), DAdd(a, b))
  /\ Is(RSub(Num(a), Num(b)), DSub(a, b))
  /\ Is(RMul(Num(a), Num(b)), DMul(a, b))
  /\ b[1] # 0 => Is(RDiv(Num(a), Num(b)), DDiv(a, b))
  /\ RLe(Num(a), Num(b)) = DLe(a, b)
  /\ RLt(Num(a), Num(b)) = (~ DLe(b, a))
  /\ REq(Num(a), Num(b)) = (DLe(a, b) /\ DLe(b, a))
  /\ REq(RMax(Num(a), Num(b)), IF DLe(a, b) THEN Num(b) ELSE Num(a))
  /\ REq(RMin(Num(a), Num(b)), IF DLe(a, b) THEN Num(a) ELSE Num(b))
  /\ Is(RNeg(Num(a)), DSub(<<0, 1>>, a))
  /\ RStr(RAbs(Num(a))) = RStr(RMax(Num(a), RNeg(Num(a))))
  /\ \A k \in 0..3 : Is(RPow(Num(a), k), DPow(a, k))
  /\ \A k \in -1..9 : a[1] >= 0 => Is(RBinom(a[1], k), DBinom(a[1], k))
  /\ REq(RNum(RStr(Num(a))), Num(a))
  /\ RStr(Num(a)) = RStr(Num(b)) <=> REq(Num(a), Num(b))
  /\ Is(RSum(<<Num(a), Num(b), Num(a)>>), DAdd(DAdd(a, b), a))
  /\ Is(RDot(<<Num(a), Num(b)>>, <<Num(b), Num(b)>>), DAdd(DMul(a, b), DMul(b, b)))
  /\ a[1] >= 0 =>
       LET lo == RSqrtLo(Num(a))
           hi == RSqrtHi(Num(a))
       IN  /\ RLe(RMul(lo, lo), Num(a)) /\ RLe(Num(a), RMul(hi, hi))
           /\ RLe(R0, lo) /\ RLe(RMul(RSub(hi, lo), RPow(R2, 90)), hi)
           /\ (RStr(lo) = RStr(hi)) <=> REq(RMul(lo, lo), Num(a))
ASSUME /\ RStr(RNum("-3:2")) = "-12" /\ RStr(RNum("3:-2")) = "3/4" /\ RStr(RNum("6/-4")) = "-3/2"
       /\ RStr(RNum("0:-1074")) = "0" /\ RIsNum("5:1") /\ ~ RIsNum("nan") /\ ~ RIsNum("-inf")
       /\ RStr(RNum("7")) = "7" /\ RStr(RNum("-0")) = "0" /\ RIsNum("-0") /\ REq(RNum("1:-1074"), RDiv(R1, RPow(R2, 1074)))
=============================================================================
