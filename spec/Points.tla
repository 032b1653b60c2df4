------------------------------- MODULE Points -------------------------------
(***************************************************************************)
(* The algebra of points (property C14): what a recorded point event must  *)
(* satisfy.  a, b are coordinate sequences, s a scalar, w other            *)
(* coordinates, all numerals; results are recorded per coordinate.         *)
(***************************************************************************)
EXTENDS Contract

(* A coordinate of the result is that of its operands within rounding, and *)
(* is no number if one of the operands is none.                            *)
PointFails2(e) ==
  LET n == Len(e.a)
      num(v, i) == RIsNum(v[i])
      a(i) == RNum(e.a[i])
      b(i) == RNum(e.b[i])
      s == RNum(e.s)
      same(r, v) == Len(r) = n /\ \A i \in 1..n : IF num(v, i) THEN RIsNum(r[i]) /\ REq(RNum(r[i]), RNum(v[i])) ELSE r[i] = v[i]
      points(r, Op(_, _)) == Len(r) = n /\ \A i \in 1..n :
         IF num(e.a, i) /\ num(e.b, i) THEN Near(r[i], Op(a(i), b(i)), RMul(Eps, RAdd(RAbs(a(i)), RAbs(b(i))))) ELSE r[i] = "nan"
      scalar(r, Op(_, _)) == Len(r) = n /\ \A i \in 1..n :
         IF num(e.a, i) THEN Near(r[i], Op(a(i), s), RMul(Eps, RAdd(RAbs(a(i)), RAbs(s)))) ELSE r[i] = "nan"
      scaled(r) == Len(r) = n /\ \A i \in 1..n :
         IF num(e.a, i) THEN Near(r[i], RMul(a(i), s), RMul(Eps, RAbs(RMul(a(i), s)))) ELSE r[i] = "nan"
      all(v) == \A i \in 1..n : num(v, i)
      eq == \A i \in 1..n : num(e.a, i) /\ num(e.b, i) /\ REq(a(i), b(i))     \* what is no number equals nothing
  IN  Clause("addition of points", points(e.add, RAdd))
      \cup Clause("subtraction of points", points(e.sub, RSub))
      \cup Clause("addition of a scalar", scalar(e.adds, RAdd))
      \cup Clause("subtraction of a scalar", scalar(e.subs, RSub))
      \cup Clause("multiplication by a scalar", scaled(e.mul))
      \cup Clause("multiplication by a native float", e.sq # "-" => scaled(e.muln))
      \cup Clause("equality", e.eq = (IF eq THEN "y" ELSE "n") /\ e.ne = (IF eq THEN "n" ELSE "y")
                             /\ e.self = (IF all(e.a) THEN "y" ELSE "n"))
      \cup Clause("the default is the origin", SamePt(e.def, [i \in 1..n |-> R0]))
      \cup Clause("iteration by value", same(e.it, e.a))
      \cup Clause("iteration by mutable reference", e.cnt = n /\ same(e.wr, e.w))
      \cup (IF e.sq = "-" THEN {}
            ELSE (IF all(e.a)
                  THEN LET sq == RSum([i \in 1..n |-> RMul(a(i), a(i))])
                       IN  Clause("squared length", Near(e.sq, sq, RMul(Eps, sq)))
                  ELSE Clause("squared length", e.sq = "nan"))
                 \cup Clause("axis", same(e.ax, e.a))
                 \cup Clause("dimension", REq(RNum(e.dim), RInt(n))))
OutOfRangeFails(e) == Clause("axis out of range panics", e.p = "y")
=============================================================================
