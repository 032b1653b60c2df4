-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* The curves of the library as abstract values, and the exact effect of   *)
(* the calls that produce new curves.  A curve is a record                 *)
(*    kind   "line" | "quad" | "cubic" | "bez" | "spl"                     *)
(*    deg    its degree                                                    *)
(*    pts    its control points: sequences of numerals                     *)
(*    knots  its knots (numerals; <<>> unless kind = "spl")                *)
(* Neither the point type nor the Bezier-segment wrapper appears: the      *)
(* meaning of a call does not depend on them (properties C15, C16).        *)
(***************************************************************************)
EXTENDS BSpline, FiniteSets, SequencesExt, TLC

Pt(s)   == RSeq([d \in 1..Len(s) |-> RNum(s[d])])
Poly(S) == RSeq([i \in 1..Len(S) |-> Pt(S[i])])
Nums(s) == RSeq([i \in 1..Len(s) |-> RNum(s[i])])
PtStr(p)   == RSeq([d \in 1..Len(p) |-> RStr(p[d])])
PolyStr(P) == RSeq([i \in 1..Len(P) |-> PtStr(P[i])])

Curve(kind, deg, P, u) == [kind |-> kind, deg |-> deg, pts |-> PolyStr(P), knots |-> PtStr(u)]

FixedDeg == [line |-> 1, quad |-> 2, cubic |-> 3]
IsBez(c) == c.kind # "spl"

(* the point of curve c at t, for a t of its domain *)
PointAt(c, t) == IF IsBez(c) THEN BezPoint(Poly(c.pts), t)
                 ELSE SplPoint(Nums(c.knots), Poly(c.pts), c.deg, t)

(* split of a Bezier curve *)
LeftOf(c, t)  == Curve(c.kind, c.deg, LeftPart(Poly(c.pts), t), <<>>)
RightOf(c, t) == Curve(c.kind, c.deg, RightPart(Poly(c.pts), t), <<>>)

(* the derivative curve; a line's derivative is a vector, kind "vec" *)
DerivKind == [line |-> "vec", quad |-> "line", cubic |-> "quad", bez |-> "bez", spl |-> "spl"]
DerivOf(c) ==
  IF IsBez(c) THEN Curve(DerivKind[c.kind], c.deg - 1, Hodograph(Poly(c.pts)), <<>>)
  ELSE LET u == Nums(c.knots)
       IN  Curve("spl", c.deg - 1, DerivPoints(u, Poly(c.pts), c.deg), DerivKnots(u))

(* the same curve in another representation *)
RECURSIVE ElevateTo(_, _)
ElevateTo(P, n) == IF Len(P) = n + 1 THEN P ELSE ElevateTo(Elevate(P), n)
RecastOf(c, to) ==
  LET P == Poly(c.pts)
  IN  CASE to = "bez" -> Curve("bez", c.deg, P, <<>>)
        [] to \in {"line", "quad", "cubic"} ->
             Curve(to, FixedDeg[to], ElevateTo(P, FixedDeg[to]), <<>>)
        [] to = "spl" -> Curve("spl", c.deg, P,
             [i \in 1..(2 * c.deg + 2) |-> IF i <= c.deg + 1 THEN R0 ELSE R1])

(* one control point overwritten, i counted from 1 *)
SetPoint(c, i, p) == [c EXCEPT !.pts[i] = p]

(* a spline whose values are specified everywhere on its domain *)
KnotGap == RQ(1, 1000000)
Specified(c) == LET u == Nums(c.knots)
                IN  Proper(u, Len(c.pts), c.deg) /\ Separated(u, KnotGap)
=============================================================================
