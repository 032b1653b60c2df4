-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Consequences that the specification must have.  Each law states, over   *)
(* exact numbers and independently of the definition it tests, what a user *)
(* of the library relies on; the state machines of Session.tla check them  *)
(* in every reachable state.                                               *)
(***************************************************************************)
EXTENDS Contract

(* ------------------------------- Bezier -------------------------------- *)
(* De Casteljau's recursion *)
RECURSIVE Casteljau(_, _)
Casteljau(P, t) == IF Len(P) = 1 THEN P[1]
                   ELSE Casteljau(RSeq([i \in 1..(Len(P) - 1) |-> Lerp(P[i], P[i + 1], t)]), t)
(* forward differences and Horner's scheme: the curve in the power basis *)
RECURSIVE Diffs(_)
Diffs(c) == IF Len(c) = 1 THEN <<c[1]>>
            ELSE <<c[1]>> \o Diffs(RSeq([i \in 1..(Len(c) - 1) |-> RSub(c[i + 1], c[i])]))
Power(c) == LET d == Diffs(c) IN RSeq([k \in 1..Len(c) |-> RMul(RBinom(Len(c) - 1, k - 1), d[k])])
RECURSIVE Horner(_, _)
Horner(a, t) == IF Len(a) = 1 THEN a[1] ELSE RAdd(a[1], RMul(t, Horner(Tail(a), t)))
PowerDeriv(a) == IF Len(a) = 1 THEN <<R0>> ELSE RSeq([k \in 1..(Len(a) - 1) |-> RMul(RInt(k), a[k + 1])])

Axes(P) == 1..Len(P[1])
LawEval(P, T) ==        \* C01
  /\ PtEq(BezPoint(P, R0), P[1]) /\ PtEq(BezPoint(P, R1), P[Len(P)])
  /\ \A t \in T : LET q == BezPoint(P, t)
                  IN  /\ PtEq(q, Casteljau(P, t))
                      /\ \A d \in Axes(P) : REq(q[d], Horner(Power(Coord(P, d)), t))
LawHull(P, T) ==
  \A t \in T : LET q == BezPoint(P, t)
               IN  \A d \in Axes(P) : RLe(SeqMin(Coord(P, d)), q[d]) /\ RLe(q[d], SeqMax(Coord(P, d)))
LawSplit(P, T) ==       \* C02
  \A t \in T :
    LET l == LeftPart(P, t)
        r == RightPart(P, t)
    IN  /\ Len(l) = Len(P) /\ Len(r) = Len(P)
        /\ PtEq(l[1], P[1]) /\ PtEq(r[Len(P)], P[Len(P)]) /\ PtEq(l[Len(P)], r[1])
        /\ \A s \in T : /\ PtEq(BezPoint(l, s), BezPoint(P, RMul(t, s)))
                        /\ PtEq(BezPoint(r, s), BezPoint(P, RAdd(t, RMul(RSub(R1, t), s))))
LawDeriv(P, T) ==       \* C03
  Len(P) > 1 =>
    LET H == Hodograph(P)
    IN  /\ Len(H) = Len(P) - 1
        /\ \A t \in T : \A d \in Axes(P) :
             REq(BezPoint(H, t)[d], Horner(PowerDeriv(Power(Coord(P, d))), t))
(* the derivative of a part is the part of the derivative times its length *)
LawDerivOfPart(P, T) == \* C19
  Len(P) > 1 =>
    \A t \in T : \A i \in 1..(Len(P) - 1) :
      /\ PtEq(Hodograph(LeftPart(P, t))[i], PtScale(LeftPart(Hodograph(P), t)[i], t))
      /\ PtEq(Hodograph(RightPart(P, t))[i], PtScale(RightPart(Hodograph(P), t)[i], RSub(R1, t)))
LawElevate(P, T) ==     \* C19
  /\ Len(Elevate(P)) = Len(P) + 1
  /\ \A t \in T : PtEq(BezPoint(Elevate(P), t), BezPoint(P, t))
(* the search for values of a polynomial, against samples and, for degree at most 2, the exact minimum *)
ExactMin(f) ==
  LET e == RMin(f[1], f[Len(f)])
      a == RAdd(RSub(f[1], RMul(R2, f[2])), f[3])       \* f = a t^2 + 2 b t + f[1]
      b == RSub(f[2], f[1])
      t == RDiv(RNeg(b), a)
  IN  IF Len(f) < 3 \/ REq(a, R0) \/ RLe(t, R0) \/ RLe(R1, t) THEN e ELSE RMin(e, PolyAt(f, t))
LawBounds(P, T) ==      \* C04
  \A d \in Axes(P) :
    LET f == Coord(P, d)
    IN  /\ \A t \in T : LET x == PolyAt(f, t)
                        IN  Reaches(f, x, BoxDepth) /\ Reaches(Negated(f), RNeg(x), BoxDepth)
        /\ \A b \in {SeqMin(f), SeqMax(f)} : ~ GoesBelow(f, SeqMin(f), BoxDepth)
        /\ Len(f) <= 3 =>
             LET m == ExactMin(f)
                 e == RQ(1, 1000000)
             IN  /\ Reaches(f, m, BoxDepth) /\ ~ GoesBelow(f, m, BoxDepth)
                 /\ ~ Reaches(f, RSub(m, e), BoxDepth) /\ GoesBelow(f, RAdd(m, e), BoxDepth)
LawDist(P, Q, T) ==     \* C05, C06
  \A q \in Q :
    LET f == SqDistPoly(P, q)
    IN  /\ Len(f) = 2 * Len(P) - 1
        /\ \A t \in T : REq(PolyAt(f, t), SqDist(BezPoint(P, t), q))
        /\ Len(P) = 2 => /\ REq(ExactMin(f), SegSqDist(P[1], P[2], q))
                         /\ \A t \in T : RLe(SegSqDist(P[1], P[2], q), PolyAt(f, t))
LawLength(P) ==         \* C07: chord <= n steps <= control polygon, and more steps are not shorter
  LET L(n) == BezSamples(P, n)
  IN  \A n \in {1, 2, 3} :
        /\ RLe(PolylineLo(L(1)), PolylineHi(L(n))) /\ RLe(PolylineLo(L(n)), PolylineHi(P))
        /\ RLe(PolylineLo(L(n)), PolylineHi(L(2 * n)))
        /\ PtEq(L(n)[1], P[1]) /\ PtEq(L(n)[n + 1], P[Len(P)])
        /\ RLe(PolylineLo(L(n)), PolylineHi(L(n)))
LawFlat(P, T) ==        \* C08: control points within tol of the chord keep the curve within tol of it
  Len(P) > 2 =>
    LET n == Len(P)
        far == SeqMax(RSeq([i \in 1..(n - 2) |-> SegSqDist(P[1], P[n], P[i + 1])]))
    IN  \A t \in T : RLe(SegSqDist(P[1], P[n], BezPoint(P, t)), far)
BezierLaws(P, Q, T) ==
  /\ LawEval(P, T) /\ LawHull(P, T) /\ LawSplit(P, T) /\ LawDeriv(P, T) /\ LawDerivOfPart(P, T)
  /\ LawElevate(P, T) /\ LawBounds(P, T) /\ LawDist(P, Q, T) /\ LawLength(P) /\ LawFlat(P, T)

(* ------------------------------ B-splines ------------------------------ *)
(* parameters that matter: the knots of the domain and points between them *)
RECURSIVE MidsOf(_)
MidsOf(s) == IF Len(s) < 2 THEN <<>> ELSE <<Mid(s[1], s[2])>> \o MidsOf(Tail(s))
Params(u, C, D) == LET in == SelectSeq(u \o MidsOf(u) \o MidsOf(MidsOf(u)), LAMBDA t : InDomain(u, C, D, t)) IN in
Elems(s) == 1..Len(s)
LawBasis(u, C, D, ts) ==        \* C11: non-negative, local, partition of unity
  \A i \in Elems(ts) :
    LET k == Span(u, C, D, ts[i])
        w == Basis(u, k, D, ts[i])
    IN  /\ Len(w) = C /\ k \in (D + 1)..C /\ RLt(u[k], u[k + 1])
        /\ RLe(u[k], ts[i]) /\ RLe(ts[i], u[k + 1])
        /\ REq(RSum(w), R1)
        /\ \A j \in 1..C : /\ RLe(R0, w[j]) /\ RLe(w[j], R1)
                           /\ (j < k - D \/ j > k) => REq(w[j], R0)
LawClamped(u, P, D) ==          \* C11
  /\ ClampedStart(u, D) => PtEq(SplPoint(u, P, D, DomLo(u, Len(P), D)), P[1])
  /\ ClampedEnd(u, D) => PtEq(SplPoint(u, P, D, DomHi(u, Len(P), D)), P[Len(P)])
  /\ (Len(P) = D + 1 /\ ClampedStart(u, D) /\ ClampedEnd(u, D)) =>
       \A t \in {R0, RHalf, R1, RQ(1, 3)} :
         PtEq(SplPoint(u, P, D, RAdd(u[1], RMul(t, RSub(u[Len(u)], u[1])))), BezPoint(P, t))
(* value with the basis of span k, at a parameter of its closure *)
OnSpan(u, P, D, k, t) == LET w == Basis(u, k, D, t) IN RSeq([d \in 1..Len(P[1]) |-> RDot(w, Coord(P, d))])
LawContinuous(u, P, D) ==       \* C11: no jump at a break of multiplicity at most D
  LET C == Len(P)
      ne == SelectSeq([k \in 1..Len(u) |-> k], LAMBDA k : k >= D + 1 /\ k <= C /\ RLt(u[k], u[k + 1]))
  IN  D >= 1 => \A i \in 1..(Len(ne) - 1) :
        LET a == ne[i]
            b == ne[i + 1]
        IN  PtEq(OnSpan(u, P, D, a, u[a + 1]), OnSpan(u, P, D, b, u[b]))
(* f'(a) = 1/h sum_k (-1)^(k+1)/k Delta^k f(a), exact for a polynomial of degree D *)
NewtonSlope(f, h) == LET d == Diffs(f)
                     IN  RDiv(RSum(RSeq([k \in 1..(Len(f) - 1) |-> RMul(RQ(IF k % 2 = 1 THEN 1 ELSE -1, k), d[k + 1])])), h)
LawSlope(u, P, D, ts) ==        \* C12
  D >= 1 =>
    LET C == Len(P)
        v == DerivKnots(u)
        H == DerivPoints(u, P, D)
    IN  /\ Len(H) = C - 1 /\ Len(v) = Len(H) + D
        /\ REq(DomLo(v, C - 1, D - 1), DomLo(u, C, D)) /\ REq(DomHi(v, C - 1, D - 1), DomHi(u, C, D))
        /\ \A i \in Elems(ts) :
             LET k == Span(u, C, D, ts[i])
                 h == RDiv(RSub(u[k + 1], u[k]), RInt(D))
                 back == RLt(RMul(R2, RSub(u[k + 1], ts[i])), RSub(u[k + 1], u[k]))   \* step away from the nearer end
                 g == IF back THEN RNeg(h) ELSE h
                 at(j) == OnSpan(u, P, D, k, RAdd(ts[i], RMul(RInt(j), RMul(RHalf, g))))
                 val == RSeq([j \in 1..(D + 1) |-> at(j - 1)])
                 slope == SplDeriv(u, P, D, ts[i])
             IN  /\ \A d \in 1..Len(P[1]) : REq(slope[d], NewtonSlope(Coord(val, d), RMul(RHalf, g)))
                 /\ PtEq(slope, SplPoint(v, H, D - 1, ts[i]))
LawSplLength(u, P, D) ==        \* C13
  \A n \in {1, 2} : RLe(PolylineLo(SplSamples(u, P, D, n)), PolylineHi(SplSamples(u, P, D, 2 * n)))
SplineLaws(u, P, D) ==
  LET C == Len(P)
      ts == Params(u, C, D)
  IN  /\ RLe(DomLo(u, C, D), DomHi(u, C, D))
      /\ RLt(DomLo(u, C, D), DomHi(u, C, D)) => LawBasis(u, C, D, ts)
      /\ Proper(u, C, D) => /\ LawClamped(u, P, D) /\ LawContinuous(u, P, D)
                            /\ LawSlope(u, P, D, ts) /\ LawSplLength(u, P, D)
CurveLaws(c, Q, T) == IF c.kind = "spl" THEN SplineLaws(Nums(c.knots), Poly(c.pts), c.deg)
                      ELSE BezierLaws(Poly(c.pts), Q, T)
=============================================================================
