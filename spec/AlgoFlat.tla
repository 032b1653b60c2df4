------------------------------ MODULE AlgoFlat ------------------------------
(***************************************************************************)
(* LineSegment::distance_to_point, is_linear and is_a_point in the plane   *)
(* (or in space) over small integer coordinates.  Checked: the projection  *)
(* gives the distance to the segment (C06); the two tests are what C08     *)
(* says about them.                                                        *)
(***************************************************************************)
EXTENDS Laws
CONSTANTS N, Axn, Top, Variant            \* coordinates are -Top..Top
ASSUME Variant \in {"code", "infinite line", "one control point", "no clamp at the start", "end not compared", "closed curves too"}
VARIABLES P, q, tol
vars == <<P, q, tol>>
Grid == [1..Axn -> (-Top)..Top]
Zero == [a \in 1..Axn |-> 0]
(* the first point at the origin and the last one in the first quadrant:   *)
(* distances do not change under translation and reflection                *)
Init == /\ \E Q \in [2..(N - 1) -> Grid] : \E last \in [1..Axn -> 0..Top] :
             P = [k \in 1..N |-> IF k = 1 THEN Zero ELSE IF k = N THEN last ELSE Q[k]]
        /\ q \in (IF N = 2 THEN Grid ELSE {Zero})
        /\ tol \in (IF N = 2 THEN {"0"} ELSE {"0", "1/2", "1", "3/2"})
Spec == Init /\ [][UNCHANGED vars]_vars
Pnt(v) == RSeq([a \in 1..Axn |-> RInt(v[a])])
(* the code's projection *)
LineSq(a, b, x) ==
  LET v2 == PtSub(b, a)
      l2 == Dot(v2, v2)
      d == RDiv(Dot(PtSub(x, a), v2), l2)
      t1 == IF RLt(d, R1) \/ Variant = "infinite line" THEN d ELSE R1
      t2 == IF RLt(t1, R0) /\ Variant \notin {"infinite line", "no clamp at the start"} THEN R0 ELSE t1
      proj == PtAdd(a, PtScale(v2, t2))
      w == PtSub(x, proj)
  IN  IF REq(l2, R0) THEN SqDist(a, x) ELSE Dot(w, w)
(* the distance to the segment, from its meaning: the least over its points *)
TrueSq(a, b, x) == ExactMin(SqDistPoly(<<a, b>>, x))
LineRight == N = 2 => /\ REq(LineSq(Pnt(P[1]), Pnt(P[2]), Pnt(q)), TrueSq(Pnt(P[1]), Pnt(P[2]), Pnt(q)))
                      /\ REq(SegSqDist(Pnt(P[1]), Pnt(P[2]), Pnt(q)), TrueSq(Pnt(P[1]), Pnt(P[2]), Pnt(q)))
Tl == RNum(tol)
T2 == RMul(Tl, Tl)
Within(a, b) == RLe(SqDist(Pnt(a), Pnt(b)), T2)
Linear == /\ ~ REq(SqDist(Pnt(P[1]), Pnt(P[N])), R0) \/ Variant = "closed curves too"
          /\ \A k \in 2..(IF Variant = "one control point" THEN 2 ELSE N - 1) : RLe(LineSq(Pnt(P[1]), Pnt(P[N]), Pnt(P[k])), T2)
IsPoint == /\ Within(P[1], P[N]) \/ Variant = "end not compared"
           /\ Within(P[1], P[2])
           /\ N = 4 => Within(P[4], P[3])
Flat == \A k \in 2..(N - 1) : RLe(TrueSq(Pnt(P[1]), Pnt(P[N]), Pnt(P[k])), T2)
LinearRight == N > 2 => (Linear <=> P[1] # P[N] /\ Flat)
(* a linear curve stays within the tolerance of its baseline *)
CurveFlat == N > 2 /\ Linear =>
  \A t \in {RQ(1, 4), RHalf, RQ(2, 3)} :
    RLe(SegSqDist(Pnt(P[1]), Pnt(P[N]), BezPoint(RSeq([k \in 1..N |-> Pnt(P[k])]), t)), T2)
AllWithin(f) == \A a, b \in 1..N : RLe(SqDist(Pnt(P[a]), Pnt(P[b])), RMul(RInt(f), T2))
PointRight == N > 2 => /\ AllWithin(1) => IsPoint
                       /\ IsPoint => \A a \in 1..N : RLe(SqDist(Pnt(P[1]), Pnt(P[a])), RMul(RInt(4), T2))
=============================================================================
