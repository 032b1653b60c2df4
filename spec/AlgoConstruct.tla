--------------------------- MODULE AlgoConstruct ---------------------------
(***************************************************************************)
(* The constructor of bspline.rs: its tests in order, the scans of the     *)
(* knots window by window.  Checked (C09) over every sequence of at most   *)
(* MaxKnots values of Values: a spline is constructed exactly if no rule   *)
(* is violated, and an error names a violated rule.  Every initial state   *)
(* is printed as a program for the driver, as far as a type for it exists. *)
(***************************************************************************)
EXTENDS Laws, IOUtils
CONSTANTS MaxKnots, Cs, Ds, Values, Variant
ASSUME Variant \in {"code", "NaN passes", "equal points", "strictly increasing", "knots first", "infinite knots refused"}
VARIABLES ks, c, d, i, res, pc
vars == <<ks, c, d, i, res, pc>>
Init == /\ ks \in UNION {[1..m -> Values] : m \in 1..MaxKnots}
        /\ c \in Cs /\ d \in Ds
        /\ i = 1 /\ res = "-" /\ pc = "counts"
Return(x) == res' = x /\ pc' = "done" /\ UNCHANGED i
Rules == <<[n |-> "TooFewControlPoints", v |-> IF Variant = "equal points" THEN c < d ELSE c <= d],
           [n |-> "TooFewKnots", v |-> Len(ks) < c + d + 1],
           [n |-> "TooManyKnots", v |-> Len(ks) > c + d + 1]>>
Counts ==
  /\ pc = "counts"
  /\ IF i > 3 THEN pc' = "order" /\ i' = 1 /\ UNCHANGED res
     ELSE IF Rules[i].v THEN Return(IF Variant = "knots first" /\ i = 1 THEN "TooFewKnots" ELSE Rules[i].n)
     ELSE i' = i + 1 /\ UNCHANGED <<res, pc>>
(* the comparison of floats: false if either is not a number *)
Greater(x, y) ==
  /\ x # "nan" /\ y # "nan"
  /\ CASE x = y -> Variant = "strictly increasing"
       [] x = "inf" \/ y = "-inf" -> TRUE
       [] x = "-inf" \/ y = "inf" -> FALSE
       [] OTHER -> RLt(RNum(y), RNum(x))
Order ==
  /\ pc = "order"
  /\ IF i >= Len(ks) THEN pc' = "nan" /\ i' = 1 /\ UNCHANGED res
     ELSE IF Greater(ks[i], ks[i + 1]) THEN Return("DecreasingKnots")
     ELSE i' = i + 1 /\ UNCHANGED <<res, pc>>
Nan ==
  /\ pc = "nan"
  /\ IF i > Len(ks) \/ Variant = "NaN passes" THEN Return("")
     ELSE IF ks[i] = "nan" \/ (Variant = "infinite knots refused" /\ ~ RIsNum(ks[i])) THEN Return("DecreasingKnots")
     ELSE i' = i + 1 /\ UNCHANGED <<res, pc>>
Next == \/ (Counts \/ Order \/ Nan) /\ UNCHANGED <<ks, c, d>>
        \/ pc = "done" /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Accepts == pc = "done" => (res = "" <=> Violated(ks, c, d) = {})
Names   == pc = "done" /\ res # "" => res \in Violated(ks, c, d)
Terminates == <>(pc = "done")
Emit == pc = "counts" /\ i = 1 =>
  PrintT("PROG " \o RJoin(<<"ctor", ToString(Len(ks)), ToString(c), ToString(d),
                            RJoin([m \in 1..Len(ks) |-> "f" \o ks[m]]), RJoin([m \in 1..c |-> "f" \o ToString(m)])>>))
=============================================================================
