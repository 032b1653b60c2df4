----------------------------- MODULE PointSpace -----------------------------
(***************************************************************************)
(* Points as a vector space with coordinates (C14): a machine that builds  *)
(* points by the operations of point_generic.rs, coordinate by coordinate  *)
(* in its loops, and the laws that every reachable pair of points obeys.   *)
(* Initial states are printed as programs for the driver, for       *)
(* integer and float coordinates.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat
CONSTANTS Axn, Max, MaxOps, Variant          \* coordinates of the first points are -Max..Max
ASSUME Variant \in {"code", "last coordinate left out", "subtraction adds", "equality of the first", "default not zero"}
VARIABLES a, b, s, k, r, i, op, pc
vars == <<a, b, s, k, r, i, op, pc>>
R == (-Max)..Max
Pts == [1..Axn -> R]
Zero == [d \in 1..Axn |-> 0]
Init == /\ a \in Pts /\ b \in Pts /\ s \in R
        /\ k = 0 /\ r = Zero /\ i = 1 /\ op = "-" /\ pc = "ready"
Ops == {"add", "sub", "adds", "subs", "mul"}
Start == /\ pc = "ready" /\ k < MaxOps
         /\ op' \in Ops /\ r' = a /\ i' = 1 /\ pc' = "loop" /\ UNCHANGED <<a, b, s, k>>
Coordinate(o, d) == CASE o = "add" -> a[d] + b[d] [] o = "sub" -> (IF Variant = "subtraction adds" /\ d > 1 THEN a[d] + b[d] ELSE a[d] - b[d])
                      [] o = "adds" -> a[d] + s [] o = "subs" -> a[d] - s [] o = "mul" -> a[d] * s
Loop == /\ pc = "loop"
        /\ IF i > (IF Variant = "last coordinate left out" /\ op = "mul" THEN Axn - 1 ELSE Axn)
           THEN pc' = "done" /\ UNCHANGED <<r, i>>
           ELSE r' = [r EXCEPT ![i] = Coordinate(op, i)] /\ i' = i + 1 /\ UNCHANGED pc
        /\ UNCHANGED <<a, b, s, k, op>>
(* the result becomes a point of the next operation *)
Take == /\ pc = "done" /\ k' = k + 1 /\ a' = r /\ pc' = "ready" /\ r' = Zero /\ i' = 1 /\ op' = "-" /\ UNCHANGED <<b, s>>
Next == Start \/ Loop \/ Take \/ (pc = "ready" /\ k = MaxOps /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Loop \/ Take)
Result == pc = "done" =>
  \A d \in 1..Axn : r[d] = CASE op = "add" -> a[d] + b[d] [] op = "sub" -> a[d] - b[d]
                             [] op = "adds" -> a[d] + s [] op = "subs" -> a[d] - s [] op = "mul" -> a[d] * s
(* operators of the point type, for the laws *)
Add(x, y) == [d \in 1..Axn |-> x[d] + y[d]]
Sub(x, y) == [d \in 1..Axn |-> IF Variant = "subtraction adds" /\ d > 1 THEN x[d] + y[d] ELSE x[d] - y[d]]
Mul(x, c) == [d \in 1..Axn |-> IF Variant = "last coordinate left out" /\ d = Axn THEN x[d] ELSE x[d] * c]
Equal(x, y) == \A d \in 1..(IF Variant = "equality of the first" THEN 1 ELSE Axn) : x[d] = y[d]
Default == IF Variant = "default not zero" THEN [d \in 1..Axn |-> 1] ELSE Zero
RECURSIVE SumSq(_, _)
SumSq(x, d) == IF d = 0 THEN 0 ELSE x[d] * x[d] + SumSq(x, d - 1)
SqLen(x) == SumSq(x, Axn)
VectorSpace ==
  /\ Equal(Add(a, b), Add(b, a)) /\ Sub(Add(a, b), b) = a /\ Add(a, Default) = a /\ Sub(a, a) = Default
  /\ Mul(Add(a, b), s) = Add(Mul(a, s), Mul(b, s)) /\ Mul(a, 1) = a /\ Mul(a, 0) = Zero
  /\ Equal(a, b) <=> a = b
  /\ SqLen(a) >= 0 /\ (SqLen(a) = 0 <=> a = Zero)
  /\ SqLen(Mul(a, s)) = s * s * SqLen(a)
  /\ SqLen(Add(a, b)) + SqLen(Sub(a, b)) = 2 * SqLen(a) + 2 * SqLen(b)          \* parallelogram law
Text(x, f) == RJoin([d \in 1..Axn |-> f \o ToString(x[d])])
Program(type, f) == PrintT("PROG " \o RJoin(<<"pt", type, ToString(Axn), Text(a, f), Text(b, f), f \o ToString(s), Text([d \in 1..Axn |-> 3 * a[d] - b[d]], f)>>))
Emit == (pc = "ready" /\ k = 0) => Program("i64", "") /\ Program("f64", "f") /\ Program("f32", "f")
Terminates == <>(pc = "ready" /\ k = MaxOps)
=============================================================================
