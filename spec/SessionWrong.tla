---------------------------- MODULE SessionWrong ----------------------------
(***************************************************************************)
(* Wrong definitions for the specification: a configuration puts one in    *)
(* place of the right one, and the laws must then fail.                    *)
(***************************************************************************)
EXTENDS Session
WrongBernstein(n, t) == RSeq([i \in 1..(n + 1) |-> RMul(RInt(IF i \in {1, n + 1} THEN 1 ELSE n), RMul(RPow(t, i - 1), RPow(RSub(R1, t), n + 1 - i)))])
WrongRightPart(P, t) == RSeq([k \in 1..Len(P) |-> BezPoint(SubSeq(P, 1, Len(P) + 1 - k), t)])
WrongHodograph(P) == RSeq([i \in 1..(Len(P) - 1) |-> PtScale(PtSub(P[i + 1], P[i]), RInt(Len(P)))])
WrongElevate(P) == SubSeq(P, 1, Len(P)) \o <<P[Len(P)]>>
WrongGoesBelow(f, b, depth) == RLt(SeqMin(f), b)
WrongReaches(f, b, depth) == RLe(f[1], b) \/ RLe(f[Len(f)], b)
WrongSegSqDist(a, b, q) ==
  LET v == PtSub(b, a)
  IN  IF REq(Dot(v, v), R0) THEN SqDist(q, a) ELSE SqDist(q, Lerp(a, b, RDiv(Dot(PtSub(q, a), v), Dot(v, v))))
WrongBezSamples(P, n) == RSeq([i \in 1..(n + 1) |-> BezPoint(P, RQ(i - 1, n + 1))])
WrongSpan(u, C, D, t) == CHOOSE k \in (D + 1)..C : RLt(u[k], u[k + 1]) /\ \A j \in (D + 1)..C : RLt(u[j], u[j + 1]) => k <= j
WrongBasisDeriv(u, k, p, t) ==
  LET b == Basis(u, k, p - 1, t)
  IN  RSeq([i \in 1..(Len(u) - 1 - p) |-> RMul(RInt(p), RSub(Ratio(b[i], RSub(u[i + p], u[i])), Ratio(b[i + 1], RSub(u[i + p], u[i]))))])
WrongDerivPoints(u, P, D) ==
  RSeq([i \in 1..(Len(P) - 1) |-> PtScale(PtSub(P[i + 1], P[i]), Ratio(RInt(D), RSub(u[i + D], u[i])))])
WrongSplSamples(u, P, D, n) ==
  LET a == DomLo(u, Len(P), D)
      b == DomHi(u, Len(P), D)
  IN  RSeq([i \in 1..(n + 1) |-> SplPoint(u, P, D, RAdd(a, RMul(RQ(i - 1, 2 * n), RSub(b, a))))])
=============================================================================
