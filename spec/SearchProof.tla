----------------------------- MODULE SearchProof ------------------------------
(* The two-pass search of `distance_to_point`, for every number of steps and  *)
(* every function of distance G: an unbounded proof, checked by TLAPS.        *)
(* Parameters are counted in units of 1 / Steps^2, so that both passes visit  *)
(* integers: One is the parameter 1, Half is half a coarse step.  Distances   *)
(* are only compared, so integers stand for them.                             *)
(* (AlgoSearch checks the same machine by TLC, with the distances of curves.) *)
EXTENDS Integers, TLAPS

CONSTANTS Half, Steps, One, Coarse(_), G(_)

ASSUME Sizes == Half \in Nat /\ Half >= 1 /\ Steps = 2 * Half /\ One \in Nat
(* Coarse(n) = n * Steps, said without multiplication *)
ASSUME Grid == /\ Coarse(0) = 0 /\ Coarse(Steps) = One
               /\ \A n \in 0..Steps : Coarse(n) \in 0..One
ASSUME Distance == \A t \in 0..One : G(t) \in Int

VARIABLES i, tmin, dmin, pc
vars == <<i, tmin, dmin, pc>>

Clamp(t) == IF t < 0 THEN 0 ELSE IF t > One THEN One ELSE t
Visit(n) == Clamp(tmin + n - Half)             \* fine candidate n

Init == i = 0 /\ tmin = 0 /\ dmin = G(0) /\ pc = "coarse"
CoarseStep ==
  /\ pc = "coarse" /\ i <= Steps /\ i' = i + 1 /\ UNCHANGED pc
  /\ IF G(Coarse(i)) < dmin THEN tmin' = Coarse(i) /\ dmin' = G(Coarse(i)) ELSE UNCHANGED <<tmin, dmin>>
Turn == pc = "coarse" /\ ~(i <= Steps) /\ i' = 0 /\ pc' = "fine" /\ UNCHANGED <<tmin, dmin>>
FineStep ==
  /\ pc = "fine" /\ i < Steps /\ i' = i + 1 /\ UNCHANGED <<pc, tmin>>
  /\ dmin' = IF G(Visit(i)) < dmin THEN G(Visit(i)) ELSE dmin
Done == pc = "fine" /\ ~(i < Steps) /\ pc' = "done" /\ UNCHANGED <<i, tmin, dmin>>
Next == CoarseStep \/ Turn \/ FineStep \/ Done

Inv ==
  /\ i \in 0..(Steps + 1) /\ tmin \in 0..One /\ dmin \in Int
  /\ pc \in {"coarse", "fine", "done"} /\ (pc # "coarse" => i <= Steps) /\ (pc = "done" => i = Steps)
  /\ \E t \in 0..One : dmin = G(t)                                   \* never below the true distance
  /\ pc = "coarse" => dmin = G(tmin)
  /\ \A n \in 0..Steps : (pc # "coarse" \/ n < i) => dmin <= G(Coarse(n))
  /\ pc # "coarse" => \A n \in 0..(i - 1) : dmin <= G(Visit(n))

LEMMA OnCurve == \A t \in Int : Clamp(t) \in 0..One
  BY Sizes DEF Clamp

THEOREM Start == Init => Inv
  BY Sizes, Grid, Distance DEF Init, Inv

THEOREM Preserved == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, Inv, Visit
<1>2. CASE CoarseStep
  <2>1. i \in 0..Steps /\ i' = i + 1 /\ pc = "coarse" /\ pc' = "coarse" /\ Coarse(i) \in 0..One /\ G(Coarse(i)) \in Int
    BY <1>2, Sizes, Grid, Distance DEF CoarseStep, Inv
  <2>2. CASE G(Coarse(i)) < dmin
    <3>1. tmin' = Coarse(i) /\ dmin' = G(Coarse(i))
      BY <1>2, <2>2 DEF CoarseStep
    <3>2. \A n \in 0..Steps : n < i' => dmin' <= G(Coarse(n))
      <4> SUFFICES ASSUME NEW n \in 0..Steps, n < i + 1 PROVE G(Coarse(i)) <= G(Coarse(n))
        BY <2>1, <3>1
      <4>1. G(Coarse(n)) \in Int
        BY Grid, Distance
      <4>2. CASE n = i
        BY <4>1, <4>2
      <4>3. CASE n # i
        <5>1. dmin <= G(Coarse(n)) /\ dmin \in Int
          BY <4>3, <2>1, Sizes DEF Inv
        <5> QED BY <5>1, <4>1, <2>1, <2>2
      <4> QED BY <4>2, <4>3
    <3> QED BY <2>1, <3>1, <3>2, Sizes DEF Inv
  <2>3. CASE ~(G(Coarse(i)) < dmin)
    <3>1. tmin' = tmin /\ dmin' = dmin
      BY <1>2, <2>3 DEF CoarseStep
    <3>2. \A n \in 0..Steps : n < i' => dmin' <= G(Coarse(n))
      <4> SUFFICES ASSUME NEW n \in 0..Steps, n < i + 1 PROVE dmin <= G(Coarse(n))
        BY <2>1, <3>1
      <4>1. CASE n = i
        BY <4>1, <2>1, <2>3 DEF Inv
      <4>2. CASE n # i
        BY <4>2, <2>1, Sizes DEF Inv
      <4> QED BY <4>1, <4>2
    <3> QED BY <2>1, <3>1, <3>2, Sizes DEF Inv
  <2> QED BY <2>2, <2>3
<1>3. CASE Turn
  <2>1. i' = 0 /\ pc = "coarse" /\ pc' = "fine" /\ tmin' = tmin /\ dmin' = dmin /\ i = Steps + 1
    BY <1>3, Sizes DEF Turn, Inv
  <2>2. \A n \in 0..Steps : dmin <= G(Coarse(n))
    BY <2>1, Sizes DEF Inv
  <2> QED BY <2>1, <2>2, Sizes DEF Inv
<1>4. CASE FineStep
  <2>1. i \in 0..(Steps - 1) /\ i' = i + 1 /\ pc = "fine" /\ pc' = "fine" /\ tmin' = tmin
    BY <1>4, Sizes DEF FineStep, Inv
  <2>2. \A n \in 0..Steps : Visit(n) \in 0..One /\ G(Visit(n)) \in Int
    <3> TAKE n \in 0..Steps
    <3>1. tmin + n - Half \in Int
      BY Sizes DEF Inv
    <3> QED BY <3>1, OnCurve, Distance DEF Visit
  <2>3. \A n : Visit(n)' = Visit(n)
    BY <2>1 DEF Visit
  <2>4. dmin' \in Int /\ dmin' <= dmin /\ dmin' <= G(Visit(i)) /\ dmin' \in {dmin, G(Visit(i))}
    BY <1>4, <2>1, <2>2, Sizes DEF FineStep, Inv
  <2>5. \E t \in 0..One : dmin' = G(t)
    BY <2>1, <2>2, <2>4, Sizes DEF Inv
  <2>6. \A n \in 0..Steps : dmin' <= G(Coarse(n))
    <3> TAKE n \in 0..Steps
    <3>1. dmin <= G(Coarse(n)) /\ dmin \in Int /\ G(Coarse(n)) \in Int
      BY <2>1, Grid, Distance DEF Inv
    <3> QED BY <3>1, <2>4
  <2>7. \A n \in 0..i : dmin' <= G(Visit(n))
    <3> TAKE n \in 0..i
    <3>1. CASE n = i
      BY <3>1, <2>4
    <3>2. CASE n # i
      <4>1. n \in 0..(i - 1) /\ n \in 0..Steps
        BY <3>2, <2>1, Sizes
      <4>2. dmin <= G(Visit(n)) /\ dmin \in Int /\ G(Visit(n)) \in Int
        BY <4>1, <2>1, <2>2 DEF Inv
      <4> QED BY <4>2, <2>4
    <3> QED BY <3>1, <3>2
  <2>8. \A n \in 0..(i' - 1) : dmin' <= G(Visit(n)')
    BY <2>1, <2>3, <2>7, Sizes
  <2> QED BY <2>1, <2>4, <2>5, <2>6, <2>8, Sizes DEF Inv
<1>5. CASE Done
  <2>1. i' = i /\ pc = "fine" /\ pc' = "done" /\ tmin' = tmin /\ dmin' = dmin /\ i = Steps
    BY <1>5, Sizes DEF Done, Inv
  <2> QED BY <2>1, Sizes DEF Inv, Visit
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next

(* both ends of the curve are among the coarse samples *)
THEOREM Result ==
  Inv /\ pc = "done" =>
    /\ \E t \in 0..One : dmin = G(t)
    /\ \A n \in 0..Steps : dmin <= G(Coarse(n))
    /\ dmin <= G(0) /\ dmin <= G(One)
    /\ \A n \in 0..(Steps - 1) : dmin <= G(Visit(n))
<1> SUFFICES ASSUME Inv, pc = "done"
    PROVE /\ \E t \in 0..One : dmin = G(t)
          /\ \A n \in 0..Steps : dmin <= G(Coarse(n))
          /\ dmin <= G(0) /\ dmin <= G(One)
          /\ \A n \in 0..(Steps - 1) : dmin <= G(Visit(n))
  OBVIOUS
<1>1. \A n \in 0..Steps : dmin <= G(Coarse(n))
  BY DEF Inv
<1>2. 0 \in 0..Steps /\ Steps \in 0..Steps
  BY Sizes
<1>3. dmin <= G(0) /\ dmin <= G(One)
  BY <1>1, <1>2, Grid
<1> QED BY <1>1, <1>3 DEF Inv
==============================================================================
