------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What a recorded call must satisfy.  For each call there is an operator  *)
(* that takes the curve c the call was made on and the event e that the    *)
(* driver recorded, and returns the set of violated clauses (empty: the    *)
(* call conforms).  Floating-point rounding is the only nondeterminism:    *)
(* a recorded number conforms if it is within Tol of the exact one.        *)
(***************************************************************************)
EXTENDS Api

Eps == RQ(1, 1000000000)
Floor == RDiv(RQ(1, 1000000000), RInt(1000000))
Tol(scale) == RAdd(RMul(Eps, scale), Floor)

(* s: recorded numeral, x: exact number *)
Near(s, x, tol) == RIsNum(s) /\ RLe(RAbs(RSub(RNum(s), x)), tol)
NearPt(s, p, tol) == Len(s) = Len(p) /\ \A d \in 1..Len(p) : Near(s[d], p[d], tol)
NearPoly(S, P, tol) == Len(S) = Len(P) /\ \A i \in 1..Len(P) : NearPt(S[i], P[i], tol)
SamePt(s, p) == Len(s) = Len(p) /\ \A d \in 1..Len(p) : RIsNum(s[d]) /\ REq(RNum(s[d]), p[d])
SamePoly(S, P) == Len(S) = Len(P) /\ \A i \in 1..Len(P) : SamePt(S[i], P[i])
SameNums(s, q) == SamePt(s, q)

Clause(name, holds) == IF holds THEN {} ELSE {name}
Returned(e, clauses) == IF e.st = "ok" THEN clauses ELSE {"the call did not return: " \o e.st}

(* d: recorded distance numeral; conforms to a squared distance bound *)
AtMost(d, sq, tol)  == LET x == RSub(d, tol) IN RLe(x, R0) \/ RLe(RMul(x, x), sq)
AtLeast(d, sq, tol) == LET x == RAdd(d, tol) IN RLe(R0, x) /\ RLe(sq, RMul(x, x))

(* ------------------------------ C01 / C11 ------------------------------ *)
BezEvalFails(c, e) ==
  LET P == Poly(c.pts)
      q == BezPoint(P, RNum(e.t))
      tol == Tol(Scale(P))
  IN  UNION {Clause(e.r[i].m \o " returns the point of the curve", NearPt(e.r[i].p, q, tol))
             : i \in 1..Len(e.r)}

(* ------------------------------- C02 ----------------------------------- *)
SplitFails(c, e) ==
  LET P == Poly(c.pts)
      t == RNum(e.t)
      tol == Tol(Scale(P))
      at(s) == RMul(t, s)
      at2(s) == RAdd(t, RMul(RSub(R1, t), s))
  IN  Clause("control points of the left part", NearPoly(e.l, LeftPart(P, t), tol))
      \cup Clause("control points of the right part", NearPoly(e.rt, RightPart(P, t), tol))
      \cup Clause("the left part retraces the curve",
             \A i \in 1..Len(e.s) : NearPt(e.ls[i], BezPoint(P, at(RNum(e.s[i]))), tol))
      \cup Clause("the right part retraces the curve",
             \A i \in 1..Len(e.s) : NearPt(e.rs[i], BezPoint(P, at2(RNum(e.s[i]))), tol))
      \cup Clause("both parts keep the kind", e.lk = c.kind /\ e.rk = c.kind)

(* ----------------------------- C03 / C12 ------------------------------- *)
BezDerivFails(c, e) ==
  LET P == Poly(c.pts)
      H == Hodograph(P)
      tol == Tol(RMul(RInt(2 * c.deg), Scale(P)))
  IN  Clause("kind of the derivative", e.k = DerivKind[c.kind])
      \cup Clause("control points of the derivative", NearPoly(e.cp, H, tol))
      \cup UNION {Clause("value of the derivative", NearPt(e.v[i].p, BezPoint(H, RNum(e.v[i].t)), tol))
                  : i \in 1..Len(e.v)}
DirectFails(c, e) ==
  LET P == Poly(c.pts)
      tol == Tol(RMul(RInt(2 * c.deg), Scale(P)))
  IN  Clause("direct derivative", NearPt(e.r, BezPoint(Hodograph(P), RNum(e.t)), tol))

SplDerivTol(u, P, D) ==
  LET gaps == RSeq([i \in 1..(Len(P) - 1) |-> RSub(u[i + D + 1], u[i + 1])])
      pos == SelectSeq(gaps, LAMBDA g : RLt(R0, g))
  IN  Tol(RDiv(RMul(RInt(2 * D), Scale(P)), SeqMin(pos)))
SplDerivFails(c, e) ==
  LET P == Poly(c.pts)
      u == Nums(c.knots)
      C == Len(P)
      D == c.deg
      tol == SplDerivTol(u, P, D)
  IN  IF ~ Specified(c) THEN {}
      ELSE Clause("degree of the derivative", e.k = "spl" /\ e.d = D - 1)
        \cup Clause("number of control points of the derivative", Len(e.cp) = C - 1)
        \cup Clause("control points of the derivative", NearPoly(e.cp, DerivPoints(u, P, D), tol))
        \cup Clause("knots of the derivative", SameNums(e.kn, DerivKnots(u)))
        \cup Clause("domain of the derivative",
               SameNums(e.dom, <<DomLo(u, C, D), DomHi(u, C, D)>>))
        \cup UNION {LET in == RIsNum(e.v[i].t) /\ InDomain(u, C, D, RNum(e.v[i].t))
                    IN  IF in
                        THEN Clause("value of the derivative", e.v[i].err = ""
                                      /\ NearPt(e.v[i].p, SplDeriv(u, P, D, RNum(e.v[i].t)), tol))
                        ELSE Clause("the derivative has the same domain", e.v[i].err # "")
                    : i \in 1..Len(e.v)}

(* ------------------------------- C04 ----------------------------------- *)
BoxDepth == 26
BoxFails(c, e) ==
  LET P == Poly(c.pts)
      tol == Tol(Scale(P))
      dim == Len(P[1])
      one(d) ==
        LET f == Coord(P, d)
            g == Negated(f)
        IN  IF ~ (RIsNum(e.r[d][1]) /\ RIsNum(e.r[d][2])) THEN {"box bounds are numbers"}
            ELSE LET lo == RNum(e.r[d][1])
                     hi == RNum(e.r[d][2])
                 IN  Clause("no point of the curve lies below the box", ~ GoesBelow(f, RSub(lo, tol), BoxDepth))
                     \cup Clause("no point of the curve lies above the box", ~ GoesBelow(g, RNeg(RAdd(hi, tol)), BoxDepth))
                     \cup Clause("the lower bound is attained", Reaches(f, RAdd(lo, tol), BoxDepth))
                     \cup Clause("the upper bound is attained", Reaches(g, RNeg(RSub(hi, tol)), BoxDepth))
  IN  Clause("one pair per axis", Len(e.r) = dim)
      \cup (IF Len(e.r) = dim THEN UNION {one(d) : d \in 1..dim} ELSE {})

(* ----------------------------- C05 / C06 ------------------------------- *)
DistDepth == 40
CoarseN == 64
FineN == 4096
(* smallest squared distance over the fine parameters around sample i *)
FineAround(f, i) ==
  LET ks == [k \in 1..63 |-> (i * 64) + (k - 32)]    \* multiples of 1/4096, less than 1/128 away
      in == SelectSeq(ks, LAMBDA k : k >= 0 /\ k <= FineN)
  IN  SeqMin(RSeq([j \in 1..Len(in) |-> PolyAt(f, RQ(in[j], FineN))]))
(* the samples a rounding search may regard as the best one *)
Ties(coarse, sc) == LET slack == RMul(RMul(Eps, RQ(1, 1000)), RMul(sc, sc))
                        best == SeqMin(coarse)
                    IN  {i \in 1..Len(coarse) : RLe(RSub(coarse[i], best), slack)}
CurveDistFails(c, e) ==
  LET P == Poly(c.pts)
      q == Pt(e.p)
      sc == RMax(Scale(P), Scale(<<q>>))
      tol == Tol(sc)
      f == SqDistPoly(P, q)
      coarse == RSeq([i \in 1..(CoarseN + 1) |-> PolyAt(f, RQ(i - 1, CoarseN))])
      best == SeqMin(coarse)
      ties == Ties(coarse, sc)
      d == RNum(e.r)
  IN  IF ~ RIsNum(e.r) THEN {"the distance is a number"}
      ELSE Clause("the distance is not negative", RLe(R0, d))
        \cup Clause("never below the true distance",
               LET x == RAdd(d, tol) IN RLe(R0, x) /\ Reaches(f, RMul(x, x), DistDepth))
        \cup Clause("never above the distance to a coarse sample", AtMost(d, best, tol))
        \cup Clause("refined around the best coarse sample",
               \E i \in ties : AtMost(d, FineAround(f, i - 1), tol))
LineDistFails(c, e) ==
  LET P == Poly(c.pts)
      q == Pt(e.p)
      short == RLt(SqDist(P[1], P[2]), RPow(RQ(1, 10000000), 2))
      tol == RAdd(Tol(RMax(Scale(P), Scale(<<q>>))), IF short THEN RQ(1, 10000000) ELSE R0)
      sq == SegSqDist(P[1], P[2], q)
  IN  IF ~ RIsNum(e.r) THEN {"the distance is a number"}
      ELSE Clause("not above the distance to the segment", AtMost(RNum(e.r), sq, tol))
        \cup Clause("not below the distance to the segment",
               RLe(R0, RNum(e.r)) /\ AtLeast(RNum(e.r), sq, tol))

(* ----------------------------- C07 / C13 ------------------------------- *)
LengthFails(S, e, tol) ==
  IF ~ RIsNum(e.r) THEN {"the length is a number"}
  ELSE Clause("not below the length of the polyline", RLe(RSub(PolylineLo(S), tol), RNum(e.r)))
    \cup Clause("not above the length of the polyline", RLe(RNum(e.r), RAdd(PolylineHi(S), tol)))
BezLengthFails(c, e) == LET P == Poly(c.pts) IN LengthFails(BezSamples(P, e.n), e, RMul(RInt(4), Tol(Scale(P))))
(* effect on a sample of rounding its parameter: slope times 1e-15 of the largest knot *)
SplParamTol(u, P, D) ==
  LET gaps == [i \in 1..(Len(P) - 1) |-> RSub(u[i + D + 1], u[i + 1])]
      slope == RDiv(RMul(RInt(4 * D), Scale(P)), SeqMin(SelectSeq(gaps, LAMBDA g : RLt(R0, g))))
      big == RMax(RAbs(u[1]), RAbs(u[Len(u)]))
  IN  RMul(RMul(slope, big), Floor)
SplLengthFails(c, e) ==
  LET P == Poly(c.pts)
      u == Nums(c.knots)
  IN  IF Specified(c) /\ c.deg >= 1
      THEN LengthFails(SplSamples(u, P, c.deg, e.n), e,
             RAdd(RMul(RInt(4 * Len(P)), Tol(Scale(P))), RMul(RInt(e.n), SplParamTol(u, P, c.deg))))
      ELSE Clause("the length is a number", RIsNum(e.r))

(* ------------------------------- C08 ----------------------------------- *)
Ulp1 == RPow(RHalf, 52)
MinChord == RPow(RQ(1, 1000000), 2)
LinearFails(c, e) ==
  LET P == Poly(c.pts)
      n == Len(P)
      tol == RNum(e.tol)
      m == IF e.exact = "y" THEN R0 ELSE Tol(RMax(Scale(P), tol))
      chord == SqDist(P[1], P[n])
      far == SeqMax(RSeq([i \in 1..(n - 2) |-> SegSqDist(P[1], P[n], P[i + 1])]))
      lo == RSub(tol, m)
      hi == RAdd(tol, m)
  IN  IF REq(chord, R0) THEN Clause("a closed curve is not linear", e.b = "n")
      ELSE IF RLt(chord, MinChord) THEN {}
      ELSE Clause("flat within the tolerance is linear",
                  (RLe(R0, lo) /\ RLe(far, RMul(lo, lo))) => e.b = "y")
        \cup Clause("linear is flat within the tolerance",
                  RLt(RMul(hi, hi), far) => e.b = "n")
PointFails(c, e) ==
  LET P == Poly(c.pts)
      n == Len(P)
      tol == RNum(e.tol)
      m == IF e.exact = "y" THEN R0 ELSE Tol(RMax(Scale(P), tol))
      lo == RSub(tol, m)
      hi == RAdd(RMul(R2, tol), m)
      all(b) == \A i, j \in 1..n : RLe(SqDist(P[i], P[j]), b)
  IN  Clause("within the tolerance of one another is a point",
             (all(R0) \/ (RLe(R0, lo) /\ all(RMul(lo, lo)))) => e.b = "y")
      \cup Clause("a point has no control point beyond twice the tolerance",
             (\E i \in 2..n : RLt(RMul(hi, hi), SqDist(P[1], P[i]))) => e.b = "n")
BaselineFails(c, e) ==
  LET P == Poly(c.pts) IN Clause("baseline joins the ends", SamePoly(e.r, <<P[1], P[Len(P)]>>))

(* ----------------------------- C09 - C11 ------------------------------- *)
NewSplFails(e) ==
  LET v == Violated(e.knots, Len(e.pts), e.d)
  IN  IF v = {} THEN Clause("a valid spline is constructed", e.err = "")
                  \cup (IF e.err = "" THEN
                          Clause("the spline keeps its control points", e.cp = e.pts)
                          \cup Clause("the spline keeps its knots", e.kn = e.knots)
                        ELSE {})
      ELSE Clause("an invalid spline is refused", e.err # "")
           \cup Clause("the error names a violated rule", e.err = "" \/ e.err \in v)
DomainFails(c, e) ==
  LET u == Nums(c.knots) IN
  Clause("domain", SameNums(e.r, <<DomLo(u, Len(c.pts), c.deg), DomHi(u, Len(c.pts), c.deg)>>))
(* a point inside the domain, an error outside (C10) *)
SplDomainFails(c, e) ==
  LET u == Nums(c.knots)
      inside == RIsNum(e.t) /\ InDomain(u, Len(c.pts), c.deg, RNum(e.t))
      r == e.r[1]
  IN  IF inside THEN Clause("a point inside the domain",
                       r.err = "" /\ \A d \in 1..Len(r.p) : RIsNum(r.p[d]))
      ELSE Clause("no point outside the domain", r.err # "")
(* the value (C11) *)
SplValueFails(c, e) ==
  LET P == Poly(c.pts)
      u == Nums(c.knots)
      r == e.r[1]
  IN  IF RIsNum(e.t) /\ InDomain(u, Len(P), c.deg, RNum(e.t)) /\ Specified(c)
      THEN Clause("Cox-de Boor value", r.err = ""
             /\ NearPt(r.p, SplPoint(u, P, c.deg, RNum(e.t)), RMul(RInt(4), Tol(Scale(P)))))
      ELSE {}

(* ----------------------------- C15 / C18 ------------------------------- *)
(* numerals are canonical, those of the two zeros differ: equal numerals are equal bits *)
NewBezFails(e) == Clause("the curve keeps its control points", e.cp = e.pts)
PointsFails(c, e) ==
  Clause("the accessor returns the control points", e.acc = c.pts)
  \cup Clause("the iterators return the control points", \A i \in 1..Len(e.it) : e.it[i] = c.pts)
  \cup Clause("the knots are unchanged", c.kind = "spl" => e.kn = c.knots)
SetFails(c, e) == Clause("mutable iteration reaches every control point in order",
                         e.cp = SetPoint(c, e.i, e.p).pts /\ e.cnt = Len(c.pts))
EndsFails(c, e) == Clause("start and end", SamePoly(e.r, <<Pt(c.pts[1]), Pt(c.pts[Len(c.pts)])>>))

(* ------------------------------- C19 ----------------------------------- *)
(* Two runs of the same call, on curves that must behave alike: a segment  *)
(* and the curve it wraps (C15), a foreign and the built-in point type     *)
(* (C16), a mutated and a new curve (C18), two representations (C19).      *)
(* Each run is recorded as its numbers (a list of points) and its flags.   *)
NumsOf(x) == UNION {{x.n[i][d] : d \in 1..Len(x.n[i])} : i \in 1..Len(x.n)}
Magnitude(S) == LET q == SetToSeq({s \in S : RIsNum(s)})
                IN  IF Len(q) = 0 THEN R0 ELSE SeqMax([i \in 1..Len(q) |-> RAbs(RNum(q[i]))])
SameRun(a, b, tol) ==
  /\ a.f = b.f
  /\ Len(a.n) = Len(b.n)
  /\ \A i \in 1..Len(a.n) :
       /\ Len(a.n[i]) = Len(b.n[i])
       /\ \A d \in 1..Len(a.n[i]) : \/ a.n[i][d] = b.n[i][d]
                                     \/ (RIsNum(b.n[i][d]) /\ Near(a.n[i][d], RNum(b.n[i][d]), tol))
(* Rounding may turn a predicate only where its tolerance is within        *)
(* rounding of a decisive distance, and a distance only where several      *)
(* coarse samples are equally near.                                        *)
WithinRounding(x, sq, m) == ~ (RLt(RMul(RAdd(x, m), RAdd(x, m)), sq)
                               \/ (RLt(m, x) /\ RLt(sq, RMul(RSub(x, m), RSub(x, m)))))
Undecided(c, e) ==
  IF e.what \notin {"linear", "apoint", "dist"} \/ e.a.f \notin {<<>>, <<"y">>, <<"n">>} \/ e.b.f \notin {<<>>, <<"y">>, <<"n">>} THEN FALSE
  ELSE LET P == Poly(c.pts)
           n == Len(P)
           x == RNum(e.x)
           m == Tol(RMax(Scale(P), x))
           chord == SqDist(P[1], P[n])
           q == Pt(e.p)
           sc == RMax(Scale(P), Scale(<<q>>))
           f == SqDistPoly(P, q)
       IN  CASE e.what = "linear" -> \/ RLe(RMul(RQ(99, 100), Ulp1), chord) /\ RLe(chord, RMul(RQ(101, 100), Ulp1))
                                     \/ \E i \in 2..(n - 1) : WithinRounding(x, SegSqDist(P[1], P[n], P[i]), m)
             [] e.what = "apoint" -> \E i, j \in 1..n : i < j /\ WithinRounding(x, SqDist(P[i], P[j]), m)
             [] e.what = "dist" -> n > 2 /\ Cardinality(Ties(RSeq([i \in 1..(CoarseN + 1) |-> PolyAt(f, RQ(i - 1, CoarseN))]), sc)) > 1
Alike(c, e, a, b, tol) == SameRun(a, b, tol) \/ Undecided(c, e)
(* Axes are independent: the run on the curve of some of the axes only     *)
(* gives those coordinates; distances, lengths and predicates are those of *)
(* the subspace if nothing varies outside it.                              *)
OnAxes(S, ax) == [i \in 1..Len(S) |-> [k \in 1..Len(ax) |-> S[i][ax[k]]]]
Constant(c, e) == \A d \in 1..Len(c.pts[1]) : d \in Range(e.ax)
                     \/ /\ \A i \in 1..Len(c.pts) : c.pts[i][d] = c.pts[1][d]
                        /\ e.p = <<>> \/ e.p[d] = c.pts[1][d]
AxesFails(c, e, tol) ==
  LET fits == IF e.what = "bbox" THEN Len(e.a.n) = Len(c.pts[1])
              ELSE \A i \in 1..Len(e.a.n) : Len(e.a.n[i]) = Len(c.pts[1])
      sel == CASE e.what \notin {"dist", "arclen"} /\ ~ fits -> <<>>      \* the call failed: only a failing twin is alike
               [] e.what = "bbox" -> [k \in 1..Len(e.ax) |-> e.a.n[e.ax[k]]]
               [] e.what \in {"dist", "arclen"} -> e.a.n
               [] OTHER -> OnAxes(e.a.n, e.ax)
  IN  IF e.what \in {"dist", "arclen", "linear", "apoint"} /\ ~ Constant(c, e) THEN {}
      ELSE Clause("axes are independent: " \o e.what, Alike(c, e, [n |-> sel, f |-> e.a.f], e.b, tol))
PairScale(c, e) == RMax(Scale(Poly(c.pts)), Magnitude(NumsOf(e.a) \cup NumsOf(e.b)))
PairFails(c, e) ==
  CASE e.why = "copy" -> Clause("a copy behaves as the original: " \o e.what, e.a = e.b)
    [] e.why = "fresh" -> Clause("the mutated curve behaves as a new one: " \o e.what, e.a = e.b)
    [] e.why = "inner" -> Clause("the segment behaves as the wrapped curve: " \o e.what,
                                 Alike(c, e, e.a, e.b, Tol(PairScale(c, e))))
                          \cup (IF c.kind # "line" THEN {}
                                ELSE IF e.what = "linear" THEN Clause("a wrapped line is linear", e.a.f = <<"y">>)
                                ELSE IF e.what = "baseline" THEN Clause("a wrapped line is its own baseline", SamePoly(e.a.n, Poly(c.pts)))
                                ELSE {})
    [] e.why = "builtin" -> Clause("a foreign point type behaves as the built-in one: " \o e.what,
                                   Alike(c, e, e.a, e.b, Tol(PairScale(c, e))))
    [] e.why = "axes" -> AxesFails(c, e, RMul(RInt(4), Tol(PairScale(c, e))))
    [] OTHER -> (* another representation; the distance search agrees up to its coarse resolution *)
         Clause("both representations agree: " \o e.what \o " as " \o e.why,
           SameRun(e.a, e.b, IF e.what = "dist"
                             THEN RAdd(Tol(PairScale(c, e)), RMul(RQ(2 * c.deg, 128), Scale(Poly(c.pts))))
                             ELSE RMul(RInt(4), Tol(PairScale(c, e)))))
RecastFails(c, e) ==
  LET r == RecastOf(c, e.to) IN
  Clause("same curve in another representation",
         NearPoly(e.cp, Poly(r.pts), Tol(Scale(Poly(c.pts)))) /\ e.kn = r.knots)

(* ------------------------------- C20 ----------------------------------- *)
(* curves of the same Rust type: two segments may wrap different kinds     *)
SameCurve(c, d) == c.kind = d.kind /\ Len(c.pts) = Len(d.pts) /\ \A i \in 1..Len(c.pts) : PtEq(Pt(c.pts[i]), Pt(d.pts[i]))
EqFails(c, e) ==
  LET eq == SameCurve(c, e)
  IN  Clause("equal exactly if the control points are", e.e = (IF eq THEN "y" ELSE "n"))
      \cup Clause("unequal exactly if not equal", e.ne = (IF eq THEN "n" ELSE "y"))
      \cup Clause("comparison is symmetric", e.rev = e.e)
      \cup Clause("a curve equals itself", e.own = "y")
CopyFails(c, e) ==
  Clause("a copy is the same curve", e.k = c.kind /\ e.cp = c.pts /\ (c.kind = "spl" => e.kn = c.knots))
  \cup Clause("a write through a copy leaves the original", e.orig = c.pts)
  \cup Clause("a write through the original leaves the copy", e.kept = c.pts)
  \cup (IF e.i = 0 THEN {}
        ELSE Clause("a copy can be written", e.w1 = SetPoint(c, e.i, e.p).pts /\ e.w2 = e.w1))

(* ------------------------------- C17 ----------------------------------- *)
AllocFails(e) == Clause("the call allocates no memory", e.al = 0)
=============================================================================
