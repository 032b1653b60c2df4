------------------------------ MODULE Bezier ------------------------------
(***************************************************************************)
(* The mathematical meaning of Bezier curves over exact rationals.         *)
(* A point is a sequence of numbers, a polygon a non-empty sequence of     *)
(* points of one dimension; a polygon of n+1 points defines a curve of     *)
(* degree n on [0,1].  A scalar polynomial of degree n is the sequence of  *)
(* its n+1 Bernstein coefficients.                                         *)
(***************************************************************************)
EXTENDS Rat

(* ------------------------------ points --------------------------------- *)
Dim(p) == Len(p)
PtAdd(p, q) == RSeq([d \in 1..Len(p) |-> RAdd(p[d], q[d])])
PtSub(p, q) == RSeq([d \in 1..Len(p) |-> RSub(p[d], q[d])])
PtScale(p, s) == RSeq([d \in 1..Len(p) |-> RMul(p[d], s)])
Lerp(p, q, t) == RSeq([d \in 1..Len(p) |-> RAdd(p[d], RMul(RSub(q[d], p[d]), t))])
SqDist(p, q) == LET v == PtSub(p, q) IN RDot(v, v)
Dot(p, q) == RDot(p, q)
PtEq(p, q) == \A d \in 1..Len(p) : REq(p[d], q[d])

RECURSIVE SeqMax(_)
SeqMax(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], SeqMax(Tail(s)))
RECURSIVE SeqMin(_)
SeqMin(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], SeqMin(Tail(s)))
(* largest absolute coordinate of a sequence of points *)
Scale(P) == SeqMax(RSeq([i \in 1..Len(P) |-> SeqMax(RSeq([d \in 1..Len(P[i]) |-> RAbs(P[i][d])]))]))

(* ----------------------------- evaluation ------------------------------ *)
(* the Bernstein polynomials of degree n at t *)
Bernstein(n, t) == LET s == RSub(R1, t)
                   IN  RSeq([i \in 1..(n + 1) |->
                          RMul(RBinom(n, i - 1), RMul(RPow(t, i - 1), RPow(s, n + 1 - i)))])
Coord(P, d) == RSeq([i \in 1..Len(P) |-> P[i][d]])
(* sum_i C(n,i) t^i (1-t)^(n-i) P_i *)
BezPoint(P, t) == LET w == Bernstein(Len(P) - 1, t)
                  IN  RSeq([d \in 1..Len(P[1]) |-> RDot(w, Coord(P, d))])
PolyAt(c, t) == RDot(Bernstein(Len(c) - 1, t), c)

(* ------------------------- splitting, derivative ----------------------- *)
(* The k-th control point of the left part is the curve of the first k     *)
(* control points at t; of the right part, the curve of the points from k. *)
LeftPart(P, t)  == RSeq([k \in 1..Len(P) |-> BezPoint(SubSeq(P, 1, k), t)])
RightPart(P, t) == RSeq([k \in 1..Len(P) |-> BezPoint(SubSeq(P, k, Len(P)), t)])

Hodograph(P) == RSeq([i \in 1..(Len(P) - 1) |-> PtScale(PtSub(P[i + 1], P[i]), RInt(Len(P) - 1))])

(* the same curve with one more control point *)
Elevate(P) == LET n == Len(P)   \* new degree
              IN  RSeq([i \in 1..(n + 1) |->
                     IF i = 1 THEN P[1] ELSE IF i = n + 1 THEN P[n]
                     ELSE PtAdd(PtScale(P[i - 1], RQ(i - 1, n)), PtScale(P[i], RQ(n + 1 - i, n)))])

(* ----------------- scalar polynomials on [0,1], exactly ---------------- *)
(* halves of a scalar polynomial at t = 1/2, by De Casteljau *)
Mid(a, b) == RMul(RHalf, RAdd(a, b))
RECURSIVE HalveRec(_, _, _)
HalveRec(row, l, r) ==
  LET l2 == Append(l, row[1])
      r2 == <<row[Len(row)]>> \o r
  IN  IF Len(row) = 1 THEN <<l2, r2>>
      ELSE HalveRec(RSeq([i \in 1..(Len(row) - 1) |-> Mid(row[i], row[i + 1])]), l2, r2)
Halve(c) == HalveRec(c, <<>>, <<>>)

(* TRUE if the polynomial c takes a value <= b on [0,1].  A polynomial is  *)
(* bounded by its coefficients and takes its end coefficients as values,   *)
(* and the bounds converge quadratically under halving; an interval that   *)
(* is still undecided after `depth` halvings (its minimum equals b up to   *)
(* 4^-depth) counts as reaching b.                                         *)
RECURSIVE Reaches(_, _, _)
Reaches(c, b, depth) ==
  IF RLe(c[1], b) \/ RLe(c[Len(c)], b) THEN TRUE
  ELSE IF RLt(b, SeqMin(c)) THEN FALSE
  ELSE IF depth = 0 THEN TRUE
  ELSE LET h == Halve(c) IN Reaches(h[1], b, depth - 1) \/ Reaches(h[2], b, depth - 1)

(* TRUE if the polynomial c takes a value < b on [0,1], with the opposite  *)
(* convention for undecided intervals: only a value actually found counts. *)
RECURSIVE GoesBelow(_, _, _)
GoesBelow(c, b, depth) ==
  IF RLt(c[1], b) \/ RLt(c[Len(c)], b) THEN TRUE
  ELSE IF RLe(b, SeqMin(c)) THEN FALSE
  ELSE IF depth = 0 THEN FALSE
  ELSE LET h == Halve(c) IN GoesBelow(h[1], b, depth - 1) \/ GoesBelow(h[2], b, depth - 1)

Negated(c) == RSeq([i \in 1..Len(c) |-> RNeg(c[i])])

(* Bernstein coefficients of the product of two polynomials *)
ProdCoef(a, b, k) ==
  LET n == Len(a) - 1
      m == Len(b) - 1
      lo == IF k - m > 0 THEN k - m ELSE 0
      hi == IF k < n THEN k ELSE n
      is == [j \in 1..(hi - lo + 1) |-> lo + j - 1]
  IN  RDiv(RSum([j \in 1..Len(is) |->
                   RMul(RMul(RBinom(n, is[j]), RBinom(m, k - is[j])),
                        RMul(a[is[j] + 1], b[k - is[j] + 1]))]),
           RBinom(n + m, k))
Product(a, b) == RSeq([k \in 1..(Len(a) + Len(b) - 1) |-> ProdCoef(a, b, k - 1)])

(* squared distance from q to the curve of P, as a polynomial in t *)
SqDistPoly(P, q) ==
  LET diff(d) == RSeq([i \in 1..Len(P) |-> RSub(P[i][d], q[d])])
      sq == RSeq([d \in 1..Len(q) |-> LET c == diff(d) IN Product(c, c)])
  IN  RSeq([k \in 1..(2 * Len(P) - 1) |-> RSum([d \in 1..Len(q) |-> sq[d][k]])])

(* ------------------------------ segments ------------------------------- *)
(* squared distance from q to the segment from a to b *)
SegSqDist(a, b, q) ==
  LET v == PtSub(b, a)
      l2 == Dot(v, v)
  IN  IF REq(l2, R0) THEN SqDist(q, a)
      ELSE LET t == RDiv(Dot(PtSub(q, a), v), l2)
               tc == RMax(R0, RMin(R1, t))
           IN  SqDist(q, Lerp(a, b, tc))

(* ------------------------------- lengths ------------------------------- *)
(* rational bounds of the length of the polyline through the points of S *)
PolylineLo(S) == RSum([i \in 1..(Len(S) - 1) |-> RSqrtLo(SqDist(S[i], S[i + 1]))])
PolylineHi(S) == RSum([i \in 1..(Len(S) - 1) |-> RSqrtHi(SqDist(S[i], S[i + 1]))])
(* the n+1 curve points at t = 0, 1/n, ..., 1 *)
BezSamples(P, n) == RSeq([i \in 1..(n + 1) |-> BezPoint(P, RQ(i - 1, n))])
=============================================================================
