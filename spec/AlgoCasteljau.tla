--------------------------- MODULE AlgoCasteljau ---------------------------
(***************************************************************************)
(* The in-place De Casteljau loops of bezier.rs (eval and split), one      *)
(* array write per step.  Checked: the result is the point of the curve    *)
(* and the parts are those of the exact split (C01, C02), every index is   *)
(* within the array, and the loops end.                                    *)
(***************************************************************************)
EXTENDS Laws
CONSTANTS N,         \* number of control points
          Coords,    \* their coordinates (one axis: the axes are independent)
          Variant    \* "code", or a defect that the model must reject
ASSUME Variant \in {"code", "descending", "rightmost", "save late", "one level less"}
Ts == {"0", "1", "1/2", "1/3", "7/8"}

VARIABLES pts, t,    \* the curve and the parameter (numerals)
          a, l, r,   \* the work array and the control points of the parts
          i, j, pc
vars == <<pts, t, a, l, r, i, j, pc>>

Init == /\ \E f \in [1..N -> Coords] : pts = [k \in 1..N |-> ToString(f[k])]
        /\ t \in Ts
        /\ a = pts /\ l = pts /\ r = pts
        /\ i = 1 /\ j = 0 /\ pc = "level"
Levels == IF Variant = "one level less" THEN N - 1 ELSE N
First == IF Variant = "descending" THEN N - i - 1 ELSE 0
More(k) == k >= 0 /\ k < N - i
Step(k) == IF Variant = "descending" THEN k - 1 ELSE k + 1
(* a write past the array would be an error of TLC: indexes count from zero *)
At(s, k) == s[k + 1]
Put(s, k, x) == [s EXCEPT ![k + 1] = x]
Level ==
  /\ pc = "level" /\ i <= Levels
  /\ IF Variant = "save late" THEN UNCHANGED <<l, r>>
     ELSE /\ l' = Put(l, i - 1, At(a, 0))
          /\ r' = Put(r, N - i, At(a, IF Variant = "rightmost" THEN N - 1 ELSE N - i))
  /\ j' = First /\ pc' = "inner" /\ UNCHANGED <<pts, t, a, i>>
Inner ==
  /\ pc = "inner" /\ More(j)
  /\ LET x == RNum(t)
     IN  a' = Put(a, j, RStr(RAdd(RMul(RNum(At(a, j)), RAdd(RNeg(x), R1)), RMul(RNum(At(a, j + 1)), x))))
  /\ j' = Step(j) /\ UNCHANGED <<pts, t, l, r, i, pc>>
EndLevel ==
  /\ pc = "inner" /\ ~ More(j)
  /\ IF Variant = "save late" THEN l' = Put(l, i - 1, At(a, 0)) /\ r' = Put(r, N - i, At(a, N - i))
     ELSE UNCHANGED <<l, r>>
  /\ i' = i + 1 /\ pc' = "level" /\ UNCHANGED <<pts, t, a, j>>
Done == pc = "level" /\ i > Levels /\ pc' = "done" /\ UNCHANGED <<pts, t, a, l, r, i, j>>
Next == Level \/ Inner \/ EndLevel \/ Done \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

P == RSeq([k \in 1..N |-> <<RNum(pts[k])>>])
Same(s, Q) == \A k \in 1..N : REq(RNum(s[k]), Q[k][1])
EvalRight  == pc = "done" => REq(RNum(a[1]), BezPoint(P, RNum(t))[1])
LeftRight  == pc = "done" => Same(l, LeftPart(P, RNum(t)))
RightRight == pc = "done" => Same(r, RightPart(P, RNum(t)))
(* after k levels the array starts with the curves of k+1 neighbours *)
LevelInvariant ==
  pc = "level" /\ Variant # "descending" =>
    \A k \in 0..(N - i) : REq(RNum(At(a, k)), BezPoint(SubSeq(P, k + 1, k + i), RNum(t))[1])
Terminates == <>(pc = "done")
=============================================================================
