------------------------------ MODULE BSpline ------------------------------
(***************************************************************************)
(* The mathematical meaning of B-splines: Cox-de Boor basis functions over *)
(* a knot vector u (a sequence of numbers, u[1] the first knot), degree D, *)
(* C control points, Len(u) = C + D + 1.  Knot number k counted from zero  *)
(* is u[k+1].                                                              *)
(***************************************************************************)
EXTENDS Bezier

(* ---------------------------- construction ----------------------------- *)
(* knots are numerals here: "nan" is not a number *)
(* the infinities compare as usual *)
KnotLt(x, y) == IF RIsNum(x) /\ RIsNum(y) THEN RLt(RNum(x), RNum(y))
                ELSE x # y /\ x # "nan" /\ y # "nan" /\ (x = "-inf" \/ y = "inf")
Decreasing(ks) == \E i \in 1..(Len(ks) - 1) : KnotLt(ks[i + 1], ks[i])
HasNaN(ks) == \E i \in 1..Len(ks) : ks[i] = "nan"
(* the set of rules that are violated; empty for a valid B-spline *)
Violated(ks, C, D) ==
  (IF C <= D THEN {"TooFewControlPoints"} ELSE {})
  \cup (IF Len(ks) < C + D + 1 THEN {"TooFewKnots"} ELSE {})
  \cup (IF Len(ks) > C + D + 1 THEN {"TooManyKnots"} ELSE {})
  \cup (IF Decreasing(ks) \/ HasNaN(ks) THEN {"DecreasingKnots"} ELSE {})

(* ------------------------------- domain -------------------------------- *)
DomLo(u, C, D) == u[D + 1]
DomHi(u, C, D) == u[C + 1]
InDomain(u, C, D, t) == RLe(DomLo(u, C, D), t) /\ RLe(t, DomHi(u, C, D))

(* Multiplicity of the knot u[i] *)
Mult(u, i) == Len(SelectSeq(u, LAMBDA v : REq(v, u[i])))
ClampedStart(u, D) == \A i \in 1..(D + 1) : REq(u[i], u[1])
ClampedEnd(u, D)   == \A i \in (Len(u) - D)..Len(u) : REq(u[i], u[Len(u)])
(* A non-empty domain, and no knot repeated more than D times (once for      *)
(* D = 0), except the first and the last one, D+1 times, at a clamped end. *)
Proper(u, C, D) ==
  /\ RLt(DomLo(u, C, D), DomHi(u, C, D))
  /\ \A i \in 1..Len(u) :
       Mult(u, i) <= IF \/ D = 0
                        \/ ClampedStart(u, D) /\ REq(u[i], u[1])
                        \/ ClampedEnd(u, D) /\ REq(u[i], u[Len(u)])
                     THEN D + 1 ELSE D
(* distinct knots differ by at least g *)
Separated(u, g) == \A i \in 1..(Len(u) - 1) : REq(u[i], u[i + 1]) \/ RLe(g, RSub(u[i + 1], u[i]))

(* ---------------------------- Cox-de Boor ------------------------------ *)
(* The active span: the k in D+1..C with u[k] <= t < u[k+1], and the last  *)
(* non-empty one at the end of the domain.                                 *)
Span(u, C, D, t) ==
  LET ne == {k \in (D + 1)..C : RLt(u[k], u[k + 1])}
      in == {k \in ne : RLe(u[k], t) /\ RLt(t, u[k + 1])}
  IN  IF in # {} THEN CHOOSE k \in in : TRUE
      ELSE CHOOSE k \in ne : \A j \in ne : j <= k

Ratio(n, d) == IF REq(d, R0) THEN R0 ELSE RDiv(n, d)   \* 0/0 counts as 0
(* values at t of all basis functions of degree p, N_{1,p} .. N_{Len(u)-1-p,p} *)
RECURSIVE Basis(_, _, _, _)
Basis(u, k, p, t) ==
  IF p = 0 THEN RSeq([i \in 1..(Len(u) - 1) |-> IF i = k THEN R1 ELSE R0])
  ELSE LET b == Basis(u, k, p - 1, t)
       IN  RSeq([i \in 1..(Len(u) - 1 - p) |->
              RAdd(RMul(Ratio(RSub(t, u[i]), RSub(u[i + p], u[i])), b[i]),
                   RMul(Ratio(RSub(u[i + p + 1], t), RSub(u[i + p + 1], u[i + 1])), b[i + 1]))])
(* derivatives at t of all basis functions of degree p >= 1 *)
BasisDeriv(u, k, p, t) ==
  LET b == Basis(u, k, p - 1, t)
  IN  RSeq([i \in 1..(Len(u) - 1 - p) |->
         RMul(RInt(p), RSub(Ratio(b[i], RSub(u[i + p], u[i])),
                            Ratio(b[i + 1], RSub(u[i + p + 1], u[i + 1]))))])

SplPoint(u, P, D, t) ==
  LET w == Basis(u, Span(u, Len(P), D, t), D, t)
  IN  RSeq([d \in 1..Len(P[1]) |-> RDot(w, Coord(P, d))])
SplDeriv(u, P, D, t) ==
  LET w == BasisDeriv(u, Span(u, Len(P), D, t), D, t)
  IN  RSeq([d \in 1..Len(P[1]) |-> RDot(w, Coord(P, d))])

(* --------------------------- derivative spline ------------------------- *)
DerivKnots(u) == SubSeq(u, 2, Len(u) - 1)
DerivPoints(u, P, D) ==
  RSeq([i \in 1..(Len(P) - 1) |->
     PtScale(PtSub(P[i + 1], P[i]), Ratio(RInt(D), RSub(u[i + D + 1], u[i + 1])))])

(* the n+1 curve points at parameters spaced uniformly over the domain *)
SplSamples(u, P, D, n) ==
  LET a == DomLo(u, Len(P), D)
      b == DomHi(u, Len(P), D)
  IN  RSeq([i \in 1..(n + 1) |-> SplPoint(u, P, D, RAdd(a, RMul(RQ(i - 1, n), RSub(b, a))))])
=============================================================================
