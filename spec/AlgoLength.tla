----------------------------- MODULE AlgoLength -----------------------------
(***************************************************************************)
(* The arc length loops: on [0, 1] and, for splines, on the knot domain    *)
(* [a, b].  A step adds the distance between the curve at t and at t plus  *)
(* one step.  Checked (C07, C13): the chords are, in order, those of the   *)
(* polyline through the n+1 equally spaced points, from one end of the     *)
(* domain to the other, and no parameter leaves the domain.                *)
(***************************************************************************)
EXTENDS Laws
CONSTANTS MaxSteps, Variant
ASSUME Variant \in {"code", "one more step", "starts at one", "unit domain", "end not clamped and rounded up"}
Domains == {<<"0", "1">>, <<"-1", "3">>, <<"1/2", "2/3">>}
VARIABLES n, dom, i, chords, pc
vars == <<n, dom, i, chords, pc>>
Init == n \in 1..MaxSteps /\ dom \in Domains /\ i = (IF Variant = "starts at one" THEN 1 ELSE 0) /\ chords = <<>> /\ pc = "loop"
A == RNum(dom[1])
B == RNum(dom[2])
Width == IF Variant = "unit domain" THEN R1 ELSE RSub(B, A)
Up == IF Variant = "end not clamped and rounded up" THEN RQ(1, 1000000) ELSE R0
Step ==
  /\ pc = "loop"
  /\ LET t == RAdd(A, RMul(RQ(i, n), Width))
         e == RAdd(RAdd(t, RDiv(Width, RInt(n))), Up)
         t2 == IF Up # R0 THEN e ELSE RMin(e, B)
         last == IF Variant = "one more step" THEN n ELSE n - 1
     IN  IF i > last THEN pc' = "done" /\ UNCHANGED <<i, chords>>
         ELSE chords' = Append(chords, <<RStr(t), RStr(t2)>>) /\ i' = i + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<n, dom>>
Next == Step \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InsideDomain == \A k \in 1..Len(chords) : \A x \in {chords[k][1], chords[k][2]} : RLe(A, RNum(x)) /\ RLe(RNum(x), B)
Polyline == pc = "done" =>
  /\ Len(chords) = n
  /\ \A k \in 1..n : /\ REq(RNum(chords[k][1]), RAdd(A, RMul(RQ(k - 1, n), RSub(B, A))))
                     /\ REq(RNum(chords[k][2]), RAdd(A, RMul(RQ(k, n), RSub(B, A))))
Connected == \A k \in 1..(Len(chords) - 1) : REq(RNum(chords[k][2]), RNum(chords[k + 1][1]))
Terminates == <>(pc = "done")
=============================================================================
