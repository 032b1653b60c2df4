------------------------------ MODULE Formulas ------------------------------
(***************************************************************************)
(* The closed formulas of line.rs, quadratic_bezier.rs, cubic_bezier.rs    *)
(* and the loop of Bezier::derivative, as written there.  Each is linear   *)
(* in the control points and a polynomial of degree at most 3 in t (the    *)
(* control points of parts too), and so is what the specification says:    *)
(* they are equal for all real control points and parameters if they are   *)
(* equal for unit control points at four parameters.  A state is one of    *)
(* those finitely many cases.                                              *)
(***************************************************************************)
EXTENDS Laws
CONSTANTS Variant
ASSUME Variant \in {"code", "cubic axis", "cubic dd", "quadratic dd", "cubic split", "quadratic derivative", "generic derivative", "box coefficient"}
VARIABLES kind, unit, t
vars == <<kind, unit, t>>
Size == [line |-> 2, quad |-> 3, cubic |-> 4, bez5 |-> 5, bez7 |-> 7]
Ts == {R0, R1, RHalf, RQ(1, 3), RQ(-2, 1)}      \* four are needed
Init == /\ kind \in DOMAIN Size /\ unit \in 1..Size[kind] /\ t \in {RStr(x) : x \in Ts}
Spec == Init /\ [][UNCHANGED vars]_vars

n == Size[kind]
(* control points as numbers of one axis *)
p == RSeq([k \in 1..n |-> IF k = unit THEN R1 ELSE R0])
P == RSeq([k \in 1..n |-> <<p[k]>>])
x == RNum(t)
s == RAdd(RNeg(x), R1)
a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
Num(k) == RInt(k)
L(u, v) == u ++ ((v -- u) ** x)                       \* u + (v - u) * t

Evals ==   \* every formula that evaluates the curve
  CASE kind = "line" -> {L(p[1], p[2])}
    [] kind = "quad" -> {((p[1] ** s) ** s) ++ (((p[2] ** Num(2)) ** s) ** x) ++ ((p[3] ** x) ** x),
                         L(L(p[1], p[2]), L(p[2], p[3]))}
    [] kind = "cubic" -> {((p[1] ** ((s ** s) ** s)) ++ (p[2] ** (((x ** s) ** s) ** Num(3)))
                            ++ (p[3] ** (((x ** x) ** s) ** Num(3)))) ++ (p[4] ** ((x ** x) ** x)),
                          L(L(L(p[1], p[2]), L(p[2], p[3])), L(L(p[2], p[3]), L(p[3], p[4]))),
                          LET u == IF Variant = "cubic axis" THEN s ** x ELSE s ** s
                          IN  (((s ** s) ** s) ** p[1]) ++ (((u ** x) ** p[2]) ** Num(3))
                              ++ (((s ** (x ** x)) ** p[3]) ** Num(3)) ++ (((x ** x) ** x) ** p[4])}
    [] OTHER -> {}
EvalFormulas == \A e \in Evals : REq(e, BezPoint(P, x)[1])

Parts ==   \* the two parts, as sequences
  CASE kind = "line" -> <<<<p[1], L(p[1], p[2])>>, <<L(p[1], p[2]), p[2]>>>>
    [] kind = "quad" -> LET ab == L(p[1], p[2])
                            bc == L(p[2], p[3])
                            m == L(ab, bc)
                        IN  <<<<p[1], ab, m>>, <<m, bc, p[3]>>>>
    [] kind = "cubic" -> LET ab == L(p[1], p[2])
                             bc == L(p[2], p[3])
                             cd == L(p[3], p[4])
                             abc == L(ab, bc)
                             bcd == L(bc, cd)
                             m == L(abc, bcd)
                         IN  IF Variant = "cubic split" THEN <<<<p[1], ab, abc, m>>, <<m, bcd, bc, p[4]>>>>
                             ELSE <<<<p[1], ab, abc, m>>, <<m, bcd, cd, p[4]>>>>
    [] OTHER -> <<>>
SameNumbers(u, Q) == Len(u) = Len(Q) /\ \A k \in 1..Len(u) : REq(u[k], Q[k][1])
SplitFormulas == Parts # <<>> => SameNumbers(Parts[1], LeftPart(P, x)) /\ SameNumbers(Parts[2], RightPart(P, x))

(* control points of the derivative *)
Slopes ==
  CASE kind = "line" -> <<p[2] -- p[1]>>
    [] kind = "quad" -> LET m == IF Variant = "quadratic derivative" THEN 1 ELSE 2
                        IN  <<(p[2] -- p[1]) ** Num(2), (p[3] -- p[2]) ** Num(m)>>
    [] kind = "cubic" -> RSeq([k \in 1..3 |-> (p[k + 1] -- p[k]) ** Num(3)])
    [] OTHER -> RSeq([k \in 1..(n - 1) |-> (p[k + 1] -- p[k]) ** Num(IF Variant = "generic derivative" THEN n ELSE n - 1)])
DerivativeFormulas == SameNumbers(Slopes, Hodograph(P))
Direct ==
  CASE kind = "quad" -> {((p[1] ** ((x ** Num(2)) -- Num(2))) ++ (p[2] ** (Num(2) -- (Num(IF Variant = "quadratic dd" THEN 2 ELSE 4) ** x))))
                          ++ (p[3] ** (Num(2) ** x))}
    [] kind = "cubic" ->
         LET x2 == x ** x
             c0 == ((x2 ** Num(-3)) ++ (x ** Num(6))) -- Num(3)
             c1 == ((x2 ** Num(9)) -- (x ** Num(12))) ++ Num(3)
             c2 == (x2 ** Num(-9)) ++ (x ** Num(IF Variant = "cubic dd" THEN 9 ELSE 6))
             c3 == x2 ** Num(3)
         IN  {(((p[1] ** c0) ++ (p[2] ** c1)) ++ (p[3] ** c2)) ++ (p[4] ** c3)}
    [] OTHER -> {}
DirectFormulas == \A e \in Direct : REq(e, BezPoint(Hodograph(P), x)[1])
(* the polynomials whose roots the bounding boxes take: the derivative in the power basis *)
BoxPolynomial ==
  CASE kind = "quad" -> LET h == Slopes IN {(((h[1] ** Num(-1)) ++ h[2]) ** x) ++ h[1]}
    [] kind = "cubic" -> LET h == Slopes
                             qa == (h[1] ++ (h[2] ** Num(-2))) ++ h[3]
                             qb == (h[1] ** Num(-2)) ++ (h[2] ** Num(IF Variant = "box coefficient" THEN 1 ELSE 2))
                         IN  {((qa ** (x ** x)) ++ (qb ** x)) ++ h[1]}
    [] OTHER -> {}
BoxFormulas == \A e \in BoxPolynomial : REq(e, BezPoint(Hodograph(P), x)[1])
=============================================================================
