---------------------------- MODULE AlgoSearch -----------------------------
(***************************************************************************)
(* The two-pass distance search of the curves, with a small number Steps   *)
(* of steps in place of 64: one candidate per step.  Checked (C05): the    *)
(* result is a value of the distance on the curve, so never below the      *)
(* true distance, is not above any coarse sample, not above any fine       *)
(* sample around the best coarse one, and every candidate is on the curve. *)
(***************************************************************************)
EXTENDS Laws
CONSTANTS N, Steps, Coords, Variant
ASSUME Variant \in {"code", "coarse stops early", "fine from zero", "fine beyond the curve", "unclamped", "minimum not kept"}
Queries == {"-1", "0", "1/2", "3"}
VARIABLES pts, q, i, tmin, dmin, seen, pc      \* seen: parameters evaluated
vars == <<pts, q, i, tmin, dmin, seen, pc>>

P == RSeq([k \in 1..N |-> <<RNum(pts[k])>>])
Q == <<RNum(q)>>
Sq(t) == SqDist(BezPoint(P, t), Q)
Init == /\ \E f \in [1..N -> Coords] : pts = [k \in 1..N |-> ToString(f[k])]
        /\ q \in Queries
        /\ i = 0 /\ tmin = "0" /\ dmin = RStr(SqDist(Q, P[1])) /\ seen = {} /\ pc = "coarse"
Coarse ==
  /\ pc = "coarse"
  /\ LET t == RQ(i, Steps)
         last == IF Variant = "coarse stops early" THEN Steps - 1 ELSE Steps
         better == RLt(Sq(t), RNum(dmin))
     IN  IF i > last THEN pc' = "fine" /\ i' = 0 /\ UNCHANGED <<tmin, dmin, seen>>
         ELSE /\ tmin' = IF better THEN RStr(t) ELSE tmin
              /\ dmin' = IF better THEN RStr(Sq(t)) ELSE dmin
              /\ seen' = seen \cup {RStr(t)} /\ i' = i + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<pts, q>>
Offset == CASE Variant = "fine from zero" -> RQ(i, Steps * Steps)
            [] OTHER -> RDiv(RSub(RInt(i), RQ(Steps, 2)), RInt(Steps * Steps))
Fine ==
  /\ pc = "fine"
  /\ LET raw == RAdd(RNum(tmin), Offset)
         t == CASE Variant = "unclamped" -> raw
                [] Variant = "fine beyond the curve" -> RMax(R0, raw)
                [] OTHER -> RMin(R1, RMax(R0, raw))
         better == RLt(Sq(t), RNum(dmin)) \/ Variant = "minimum not kept"
     IN  IF i >= Steps THEN pc' = "done" /\ UNCHANGED <<i, dmin, seen>>
         ELSE /\ dmin' = IF better THEN RStr(Sq(t)) ELSE dmin
              /\ seen' = seen \cup {RStr(t)} /\ i' = i + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<pts, q, tmin>>
Next == Coarse \/ Fine \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OnCurve == \A s \in seen : RLe(R0, RNum(s)) /\ RLe(RNum(s), R1)
NotBelow == pc = "done" => Reaches(SqDistPoly(P, Q), RNum(dmin), 20)
CoarseBest == pc # "coarse" => \A k \in 0..Steps : RLe(RNum(dmin), Sq(RQ(k, Steps)))
FineBest == pc = "done" => \A k \in 0..(Steps - 1) :
              LET t == RAdd(RNum(tmin), RDiv(RSub(RInt(k), RQ(Steps, 2)), RInt(Steps * Steps)))
              IN  RLe(R0, t) /\ RLe(t, R1) => RLe(RNum(dmin), Sq(t))
(* for a curve that is a segment the result is within half a fine step of the exact distance *)
NearSegment == pc = "done" /\ N = 2 =>
  LET slack == RMul(RAbs(RSub(P[2][1], P[1][1])), RQ(1, Steps * Steps))
      x == RSub(RSqrtHi(RNum(dmin)), slack)
  IN  RLe(x, R0) \/ RLe(RMul(x, x), SegSqDist(P[1], P[2], Q))
Terminates == <>(pc = "done")
=============================================================================
