------------------------------ MODULE SpanProof ------------------------------
(* The two span searches of a spline, for every degree, every number of      *)
(* control points and every knot vector: an unbounded proof, checked by      *)
(* TLAPS.  (AlgoSpline checks the same two loops, with the rest of the       *)
(* evaluation around them, by TLC over all small knot vectors.)              *)
(*                                                                           *)
(* Only the order of the knots matters to the searches, so knots are         *)
(* integers here.  D is the degree, N is the number of control points        *)
(* minus one, K is the 0-based knot vector.                                  *)
EXTENDS Integers, NaturalsInduction, TLAPS

CONSTANTS D, N, K, T

ASSUME Sizes == D \in Nat /\ N \in Nat /\ D <= N
ASSUME Knots == K \in [0..(N + D + 1) -> Int]
ASSUME Steps == \A i \in 0..(N + D) : K[i] <= K[i + 1]
ASSUME Inside == T \in Int /\ K[D] <= T /\ T < K[N + 1]

Idx == 0..(N + D + 1)
------------------------------------------------------------------------------
(* the constructor looks at neighbours only: that makes the vector monotone  *)
LEMMA Monotone == \A i, j \in Idx : i <= j => K[i] <= K[j]
<1> DEFINE Q(m) == \A i \in Idx : i + m \in Idx => K[i] <= K[i + m]
<1>1. Q(0)
  BY Sizes, Knots DEF Idx
<1>2. \A m \in Nat : Q(m) => Q(m + 1)
  <2> TAKE m \in Nat
  <2> HAVE Q(m)
  <2> TAKE i \in Idx
  <2> HAVE i + (m + 1) \in Idx
  <2>1. i + m \in Idx /\ i + m \in 0..(N + D)
    BY Sizes DEF Idx
  <2>2. K[i] <= K[i + m]
    BY <2>1
  <2>3. K[i + m] <= K[(i + m) + 1]
    BY <2>1, Steps
  <2>4. (i + m) + 1 = i + (m + 1) /\ K[i] \in Int /\ K[i + m] \in Int /\ K[(i + m) + 1] \in Int
    BY <2>1, Knots, Sizes DEF Idx
  <2> QED BY <2>2, <2>3, <2>4
<1>3. \A m \in Nat : Q(m)
  <2> HIDE DEF Q
  <2> QED BY <1>1, <1>2, NatInduction, Isa
<1> TAKE i, j \in Idx
<1> HAVE i <= j
<1>4. j - i \in Nat /\ i + (j - i) = j
  BY Sizes DEF Idx
<1> QED BY <1>3, <1>4
------------------------------------------------------------------------------
(* The clamped kinds: low/high bisection *)
VARIABLES low, high, first, count, res

Mid == (low + high) \div 2
Hit(m) == T >= K[m] /\ T < K[m + 1]

Spec1Init == low = D /\ high = N /\ res = -1 /\ first = D /\ count = 0
Bisect ==
  /\ res = -1 /\ low <= high /\ UNCHANGED <<first, count>>
  /\ IF Hit(Mid) THEN res' = Mid /\ UNCHANGED <<low, high>>
     ELSE /\ UNCHANGED res
          /\ IF T < K[Mid] THEN high' = Mid - 1 /\ UNCHANGED low
             ELSE low' = Mid + 1 /\ UNCHANGED high

(* never "none" (low <= high while unanswered), every index it looks at is in *)
(* the vector, Mid - 1 never leaves the naturals, and the answer is the span  *)
BisectInv ==
  /\ low \in Int /\ high \in Int /\ res \in Int
  /\ D <= low /\ low <= high /\ high <= N
  /\ K[low] <= T /\ T < K[high + 1]
  /\ res # -1 => D <= res /\ res <= N /\ Hit(res)

THEOREM BisectStart == Spec1Init => BisectInv
  BY Sizes, Inside DEF Spec1Init, BisectInv

THEOREM BisectStep == BisectInv /\ [Bisect]_<<low, high, first, count, res>> => BisectInv'
<1> SUFFICES ASSUME BisectInv, [Bisect]_<<low, high, first, count, res>> PROVE BisectInv'
  OBVIOUS
<1>1. CASE UNCHANGED <<low, high, first, count, res>>
  BY <1>1 DEF BisectInv, Hit
<1>2. CASE Bisect
  <2>1. Mid \in Int /\ low <= Mid /\ Mid <= high
    BY DEF BisectInv, Mid
  <2>2. Mid \in Idx /\ Mid + 1 \in Idx /\ low \in Idx /\ high + 1 \in Idx
    BY <2>1, Sizes DEF BisectInv, Idx
  <2>3. K[Mid] \in Int /\ K[Mid + 1] \in Int /\ K[low] \in Int /\ K[high + 1] \in Int
    BY <2>2, Knots DEF Idx
  <2>4. CASE Hit(Mid)
    BY <1>2, <2>1, <2>2, <2>4, Sizes DEF Bisect, BisectInv, Hit
  <2>5. CASE ~Hit(Mid) /\ T < K[Mid]
    <3>1. low < Mid
      <4>1. low # Mid
        BY <2>3, <2>5, Inside DEF BisectInv
      <4> QED BY <4>1, <2>1 DEF BisectInv
    <3>2. res' = res /\ res = -1 /\ low' = low /\ high' = Mid - 1 /\ high' + 1 = Mid
      BY <1>2, <2>5, <2>1 DEF Bisect
    <3>3. T < K[high' + 1] /\ K[low'] <= T
      BY <3>2, <2>5 DEF BisectInv
    <3>4. low' \in Int /\ high' \in Int /\ low' <= high' /\ high' <= N /\ D <= low'
      BY <3>1, <3>2, <2>1, Sizes DEF BisectInv
    <3> QED BY <3>2, <3>3, <3>4 DEF BisectInv
  <2>6. CASE ~Hit(Mid) /\ ~(T < K[Mid])
    <3>1. T >= K[Mid + 1]
      BY <2>6, <2>3, Inside DEF Hit
    <3>2. Mid < high
      <4>1. Mid # high
        BY <3>1, <2>3, Inside DEF BisectInv
      <4> QED BY <4>1, <2>1 DEF BisectInv
    <3>3. res' = res /\ res = -1 /\ high' = high /\ low' = Mid + 1
      BY <1>2, <2>6 DEF Bisect
    <3>4. T < K[high' + 1] /\ K[low'] <= T
      BY <3>1, <3>3, <2>3, Inside DEF BisectInv
    <3>5. low' \in Int /\ high' \in Int /\ low' <= high' /\ high' <= N /\ D <= low'
      BY <3>2, <3>3, <2>1, Sizes DEF BisectInv
    <3> QED BY <3>3, <3>4, <3>5 DEF BisectInv
  <2> QED BY <2>4, <2>5, <2>6
<1> QED BY <1>1, <1>2

(* an unanswered search gets shorter: it stops within N - D + 1 steps *)
THEOREM BisectStops ==
  BisectInv /\ Bisect /\ res' = -1 => high' - low' \in Nat /\ high' - low' < high - low
<1> SUFFICES ASSUME BisectInv, Bisect, res' = -1 PROVE high' - low' \in Nat /\ high' - low' < high - low
  OBVIOUS
<1>1. BisectInv'
  BY BisectStep
<1>2. Mid \in Int /\ low <= Mid /\ Mid <= high
  BY DEF BisectInv, Mid
<1>3. ~Hit(Mid)
  BY <1>2, Sizes DEF Bisect, BisectInv
<1> QED BY <1>1, <1>2, <1>3 DEF Bisect, BisectInv

THEOREM BisectNoUnderflow ==
  BisectInv /\ res = -1 /\ T < K[Mid] => Mid - 1 >= D /\ Mid >= 1
<1> SUFFICES ASSUME BisectInv, T < K[Mid] PROVE Mid - 1 >= D /\ Mid >= 1
  OBVIOUS
<1>1. Mid \in Int /\ low <= Mid /\ Mid <= high
  BY DEF BisectInv, Mid
<1>2. low \in Idx /\ K[low] \in Int /\ Mid \in Idx /\ K[Mid] \in Int
  BY <1>1, Sizes, Knots DEF BisectInv, Idx
<1>3. low # Mid
  BY <1>2, Inside DEF BisectInv
<1> QED BY <1>1, <1>3, Sizes DEF BisectInv
------------------------------------------------------------------------------
(* The unclamped kind: first/count halving *)
It == first + (count \div 2)

Spec2Init == first = D /\ count = N + 1 - D /\ res = -1 /\ low = D /\ high = N
Halve ==
  /\ res = -1 /\ count > 0 /\ UNCHANGED <<low, high>>
  /\ IF Hit(It) THEN res' = It /\ UNCHANGED <<first, count>>
     ELSE /\ UNCHANGED res
          /\ IF T >= K[It] THEN first' = It + 1 /\ count' = count - (count \div 2 + 1)
             ELSE count' = count \div 2 /\ UNCHANGED first

HalveInv ==
  /\ first \in Int /\ count \in Int /\ res \in Int
  /\ D <= first /\ count > 0 /\ first + count <= N + 1
  /\ K[first] <= T /\ T < K[first + count]
  /\ res # -1 => D <= res /\ res <= N /\ Hit(res)

THEOREM HalveStart == Spec2Init => HalveInv
<1> SUFFICES ASSUME Spec2Init PROVE HalveInv
  OBVIOUS
<1>1. first + count = N + 1
  BY Sizes DEF Spec2Init
<1> QED BY <1>1, Sizes, Inside DEF Spec2Init, HalveInv

THEOREM HalveStep == HalveInv /\ [Halve]_<<low, high, first, count, res>> => HalveInv'
<1> SUFFICES ASSUME HalveInv, [Halve]_<<low, high, first, count, res>> PROVE HalveInv'
  OBVIOUS
<1>1. CASE UNCHANGED <<low, high, first, count, res>>
  BY <1>1 DEF HalveInv, Hit
<1>2. CASE Halve
  <2> DEFINE s == count \div 2
  <2>1. s \in Int /\ 0 <= s /\ s < count /\ It = first + s
    BY DEF HalveInv, It
  <2>2. It \in Idx /\ It + 1 \in Idx /\ first \in Idx /\ first + count \in Idx
    BY <2>1, Sizes DEF HalveInv, Idx
  <2>3. K[It] \in Int /\ K[It + 1] \in Int /\ K[first] \in Int /\ K[first + count] \in Int
    BY <2>2, Knots DEF Idx
  <2> HIDE DEF s
  <2>4. CASE Hit(It)
    BY <1>2, <2>1, <2>2, <2>4, Sizes DEF Halve, HalveInv, Hit
  <2>5. CASE ~Hit(It) /\ ~(T >= K[It])
    <3>1. s # 0
      BY <2>1, <2>3, <2>5, Inside DEF HalveInv
    <3>2. res' = res /\ res = -1 /\ first' = first /\ count' = s
      BY <1>2, <2>5 DEF Halve, s
    <3>3. first' + count' = It /\ T < K[first' + count'] /\ K[first'] <= T
      BY <3>2, <2>1, <2>3, <2>5, Inside DEF HalveInv
    <3>4. first' \in Int /\ count' \in Int /\ D <= first' /\ count' > 0 /\ first' + count' <= N + 1
      BY <3>1, <3>2, <2>1, Sizes DEF HalveInv
    <3> QED BY <3>2, <3>3, <3>4 DEF HalveInv
  <2>6. CASE ~Hit(It) /\ T >= K[It]
    <3>1. T >= K[It + 1]
      BY <2>6, <2>3, Inside DEF Hit
    <3>2. s + 1 # count
      <4>1. s + 1 = count => It + 1 = first + count
        BY <2>1 DEF HalveInv
      <4> QED BY <4>1, <3>1, <2>3, Inside DEF HalveInv
    <3>3. res' = res /\ res = -1 /\ first' = It + 1 /\ count' = count - (s + 1)
      BY <1>2, <2>6 DEF Halve, s
    <3>4. first' + count' = first + count /\ count' > 0
      BY <3>2, <3>3, <2>1 DEF HalveInv
    <3>5. T < K[first' + count'] /\ K[first'] <= T
      BY <3>1, <3>3, <3>4, <2>3, Inside DEF HalveInv
    <3>6. first' \in Int /\ count' \in Int /\ D <= first' /\ first' + count' <= N + 1
      BY <3>3, <3>4, <2>1, Sizes DEF HalveInv
    <3> QED BY <3>3, <3>4, <3>5, <3>6 DEF HalveInv
  <2> QED BY <2>4, <2>5, <2>6
<1> QED BY <1>1, <1>2

THEOREM HalveStops == HalveInv /\ Halve /\ res' = -1 => count' \in Nat /\ count' < count
<1> SUFFICES ASSUME HalveInv, Halve, res' = -1 PROVE count' \in Nat /\ count' < count
  OBVIOUS
<1>1. HalveInv'
  BY HalveStep
<1>2. It \in Int /\ It >= D
  BY Sizes DEF HalveInv, It
<1>3. ~Hit(It)
  BY <1>2, Sizes DEF Halve, HalveInv
<1> QED BY <1>1, <1>3 DEF Halve, HalveInv
------------------------------------------------------------------------------
(* both searches answer the same span: there is only one *)
THEOREM OneSpan ==
  \A a, b \in D..N : Hit(a) /\ Hit(b) => a = b
<1> SUFFICES ASSUME NEW a \in D..N, NEW b \in D..N, Hit(a), Hit(b), a < b PROVE FALSE
  BY Sizes DEF Hit
<1>1. a + 1 \in Idx /\ b \in Idx /\ a + 1 <= b
  BY Sizes DEF Idx
<1>2. K[a + 1] <= K[b]
  BY <1>1, Monotone
<1>3. K[a + 1] \in Int /\ K[b] \in Int
  BY <1>1, Knots DEF Idx
<1> QED BY <1>2, <1>3, Inside DEF Hit

(* The triangular scheme of de Boor on the span k reads the points            *)
(* k - D .. k and, in round r for slot j, the knots k - D + j + ... : all of  *)
(* them exist, and the divisor K[j + 1 + k - r] - K[j + k - D] straddles the  *)
(* span, so it is positive.                                                   *)
THEOREM BoorIndices ==
  \A k \in D..N : Hit(k) =>
    \A r \in 1..D : \A j \in r..D :
      /\ j + k - D \in Idx /\ j + 1 + k - r \in Idx
      /\ K[j + k - D] <= T /\ T < K[j + 1 + k - r]
<1> TAKE k \in D..N
<1> HAVE Hit(k)
<1> TAKE r \in 1..D
<1> TAKE j \in r..D
<1>1. j + k - D \in Idx /\ j + 1 + k - r \in Idx /\ k \in Idx /\ k + 1 \in Idx
  BY Sizes DEF Idx
<1>2. j + k - D <= k /\ k + 1 <= j + 1 + k - r
  BY Sizes
<1>3. K[j + k - D] <= K[k] /\ K[k + 1] <= K[j + 1 + k - r]
  BY <1>1, <1>2, Monotone
<1>4. K[j + k - D] \in Int /\ K[k] \in Int /\ K[k + 1] \in Int /\ K[j + 1 + k - r] \in Int
  BY <1>1, Knots DEF Idx
<1> QED BY <1>1, <1>3, <1>4, Inside DEF Hit
==============================================================================
