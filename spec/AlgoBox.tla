------------------------------ MODULE AlgoBox -------------------------------
(***************************************************************************)
(* The bounding boxes of line, quadratic and cubic curves on one axis:     *)
(* the extrema are the ends and the values at the roots of the derivative  *)
(* in (0, 1); their least and greatest are the bounds.  Checked (C04): the *)
(* bounds are attained, and no point lies outside.  Curves whose roots     *)
(* are irrational are left out here (the traces have them).                *)
(***************************************************************************)
EXTENDS Laws
CONSTANTS N, Coords, Variant
ASSUME Variant \in {"code", "ends left out", "first root only", "linear case left out", "roots of the hull", "one sign of b"}
VARIABLES pts, ext, pc
vars == <<pts, ext, pc>>
P == RSeq([k \in 1..N |-> <<RNum(pts[k])>>])
p == Coord(P, 1)
H == Coord(Hodograph(P), 1)
Two == RInt(2)
qa == IF N = 4 THEN RAdd(RSub(H[1], RMul(Two, H[2])), H[3]) ELSE R0
qb == IF N = 4 THEN RMul(Two, RSub(H[2], H[1])) ELSE IF N = 3 THEN RSub(H[2], H[1]) ELSE R0
qc == H[1]
delta == RSub(RMul(qb, qb), RMul(RInt(4), RMul(qa, qc)))
Root == RSqrtLo(delta)
Rational == RLe(delta, R0) \/ REq(RMul(Root, Root), delta)
Roots ==
  IF REq(qa, R0) THEN (IF REq(qb, R0) \/ (N = 4 /\ Variant = "linear case left out") THEN {} ELSE {RDiv(RNeg(qc), qb)})
  ELSE IF RLt(R0, delta)
  THEN LET q == IF RLt(qb, R0) /\ Variant # "one sign of b" THEN RDiv(RSub(Root, qb), Two) ELSE RDiv(RSub(RNeg(qb), Root), Two)
       IN  IF Variant = "one sign of b" /\ REq(q, R0) THEN {RDiv(q, qa)}
           ELSE IF Variant = "first root only" THEN {RDiv(q, qa)} ELSE {RDiv(q, qa), RDiv(qc, q)}
  ELSE IF REq(delta, R0) THEN {RDiv(RNeg(qb), RMul(qa, Two))} ELSE {}
Init == /\ \E f \in [1..N -> Coords] : pts = [k \in 1..N |-> ToString(f[k])]
        /\ ext = {} /\ pc = "roots"
Step ==
  /\ pc = "roots"
  /\ ext' = {RStr(BezPoint(P, t)[1]) : t \in {r \in (IF Rational THEN Roots ELSE {}) : RLt(R0, r) /\ RLt(r, R1)}}
            \cup (IF Variant = "ends left out" THEN {} ELSE {pts[1], pts[N]})
            \cup (IF Variant = "roots of the hull" THEN {pts[2]} ELSE {})
  /\ pc' = "done" /\ UNCHANGED pts
Next == Step \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
E == SetToSeq({RNum(x) : x \in ext})
Bounds == pc = "done" /\ Rational =>
  /\ ext # {}
  /\ LET lo == SeqMin(E)
         hi == SeqMax(E)
     IN  /\ Reaches(p, lo, BoxDepth) /\ ~ GoesBelow(p, lo, BoxDepth)
         /\ Reaches(Negated(p), RNeg(hi), BoxDepth) /\ ~ GoesBelow(Negated(p), RNeg(hi), BoxDepth)
Terminates == <>(pc = "done")
=============================================================================
