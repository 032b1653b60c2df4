---------------------------- MODULE CasteljauProof ----------------------------
(* The in-place loops of `Bezier::eval` and `Bezier::split`, for every number *)
(* of control points and every type of point: an unbounded proof, checked by *)
(* TLAPS.  Nothing is assumed of L, the combination of two neighbours at the *)
(* parameter: so in-place is as good as the triangle, in exact arithmetic    *)
(* and in floating point alike, and both functions share their intermediate  *)
(* points bit by bit.  (That the triangle is the Bernstein sum is checked by *)
(* TLC: Laws, AlgoCasteljau.)                                                *)
EXTENDS Integers, TLAPS

CONSTANTS N,         \* number of control points
          P,         \* the control points
          L(_, _),   \* p * (1 - t) + q * t
          B(_, _)    \* De Casteljau's triangle: level, place

ASSUME Size == N \in Nat /\ N >= 1
ASSUME Poly == DOMAIN P = 0..(N - 1) /\ P = [k \in 0..(N - 1) |-> P[k]]
ASSUME Base == \A k \in 0..(N - 1) : B(0, k) = P[k]
ASSUME Triangle == \A m, k \in Nat : B(m + 1, k) = L(B(m, k), B(m, k + 1))

VARIABLES a,         \* the work array
          l, r,      \* control points of the parts
          i, j, pc
vars == <<a, l, r, i, j, pc>>
Idx == 0..(N - 1)

Init == a = P /\ l = P /\ r = P /\ i = 1 /\ j = 0 /\ pc = "level"
Level ==
  /\ pc = "level" /\ i <= N
  /\ l' = [l EXCEPT ![i - 1] = a[0]]
  /\ r' = [r EXCEPT ![N - i] = a[N - i]]
  /\ j' = 0 /\ pc' = "inner" /\ UNCHANGED <<a, i>>
Inner ==
  /\ pc = "inner" /\ j < N - i
  /\ a' = [a EXCEPT ![j] = L(a[j], a[j + 1])]
  /\ j' = j + 1 /\ UNCHANGED <<l, r, i, pc>>
EndLevel ==
  /\ pc = "inner" /\ ~(j < N - i)
  /\ i' = i + 1 /\ pc' = "level" /\ UNCHANGED <<a, l, r, j>>
Next == Level \/ Inner \/ EndLevel

(* every index of the code is inside its array *)
Bounds ==
  /\ i \in 1..(N + 1) /\ j \in Nat
  /\ pc \in {"level", "inner"}
  /\ pc = "inner" => i <= N /\ j <= N - i
  /\ DOMAIN a = Idx /\ DOMAIN l = Idx /\ DOMAIN r = Idx
Levels == IF pc = "level" THEN i - 1 ELSE i
Saved == \A m \in 0..(Levels - 1) : l[m] = B(m, 0) /\ r[N - 1 - m] = B(m, N - 1 - m)
Work ==
  /\ pc = "level" => \A k \in 0..(N - i) : a[k] = B(i - 1, k)
  /\ pc = "inner" => /\ \A k \in 0..(j - 1) : a[k] = B(i, k)
                     /\ \A k \in j..(N - i) : a[k] = B(i - 1, k)
  /\ i = N + 1 => a[0] = B(N - 1, 0)
Inv == Bounds /\ Work /\ Saved

THEOREM Start == Init => Inv
  BY Size, Poly, Base DEF Init, Inv, Bounds, Work, Saved, Levels, Idx

THEOREM Preserved == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, Inv, Bounds, Work, Saved, Levels, Idx
<1>2. CASE Level
  <2>1. pc = "level" /\ pc' = "inner" /\ i' = i /\ a' = a /\ j' = 0 /\ i \in 1..N
    BY <1>2, Size DEF Level, Inv, Bounds
  <2>2. Bounds'
    BY <1>2, <2>1, Size DEF Level, Inv, Bounds, Idx
  <2>3. Work'
    <3>1. \A k \in 0..(N - i) : a[k] = B(i - 1, k)
      BY <2>1 DEF Inv, Work
    <3> QED BY <2>1, <3>1, Size DEF Work
  <2>4. Saved'
    <3>1. \A m \in 0..(i - 1 - 1) : l[m] = B(m, 0) /\ r[N - 1 - m] = B(m, N - 1 - m)
      BY <2>1 DEF Inv, Saved, Levels
    <3>2. a[0] = B(i - 1, 0) /\ a[N - i] = B(i - 1, N - i)
      BY <2>1, Size DEF Inv, Work
    <3>3. DOMAIN l = Idx /\ DOMAIN r = Idx /\ i - 1 \in Idx /\ N - i \in Idx
      BY <2>1, Size DEF Inv, Bounds, Idx
    <3> SUFFICES ASSUME NEW m \in 0..(i - 1) PROVE l'[m] = B(m, 0) /\ r'[N - 1 - m] = B(m, N - 1 - m)
      BY <2>1 DEF Saved, Levels
    <3>4. m \in Idx /\ N - 1 - m \in Idx
      BY <2>1, Size DEF Idx
    <3>5. CASE m = i - 1
      <4>1. l'[m] = a[0] /\ N - 1 - m = N - i /\ r'[N - i] = a[N - i]
        BY <1>2, <3>3, <3>5, <2>1, Size DEF Level
      <4> QED BY <4>1, <3>2, <3>5
    <3>6. CASE m # i - 1
      <4>1. m \in 0..(i - 1 - 1) /\ N - 1 - m # N - i
        BY <3>6, <2>1, Size
      <4>2. l'[m] = l[m] /\ r'[N - 1 - m] = r[N - 1 - m]
        BY <1>2, <3>3, <3>4, <3>6, <4>1 DEF Level
      <4> QED BY <4>1, <4>2, <3>1
    <3> QED BY <3>5, <3>6
  <2> QED BY <2>1, <2>2, <2>3, <2>4 DEF Inv
<1>3. CASE Inner
  <2>1. pc = "inner" /\ pc' = "inner" /\ i' = i /\ l' = l /\ r' = r /\ j' = j + 1
        /\ i \in 1..N /\ j \in Nat /\ j < N - i
    BY <1>3, Size DEF Inner, Inv, Bounds
  <2>2. j \in Idx /\ j + 1 \in Idx /\ DOMAIN a = Idx
    BY <2>1, Size DEF Inv, Bounds, Idx
  <2>3. Bounds'
    BY <1>3, <2>1, <2>2, Size DEF Inner, Inv, Bounds
  <2>4. a[j] = B(i - 1, j) /\ a[j + 1] = B(i - 1, j + 1)
    BY <2>1, Size DEF Inv, Work
  <2>5. a'[j] = B(i, j)
    <3>1. a'[j] = L(a[j], a[j + 1])
      BY <1>3, <2>2 DEF Inner
    <3>2. i - 1 \in Nat /\ (i - 1) + 1 = i
      BY <2>1
    <3> QED BY <3>1, <3>2, <2>1, <2>4, Triangle
  <2>6. \A k \in Idx : k # j => a'[k] = a[k]
    BY <1>3, <2>2 DEF Inner
  <2>7. \A k \in 0..(j' - 1) : a'[k] = B(i', k)
    <3> TAKE k \in 0..(j' - 1)
    <3>1. CASE k = j
      BY <3>1, <2>5, <2>1
    <3>2. CASE k # j
      <4>1. k \in 0..(j - 1) /\ k \in Idx
        BY <3>2, <2>1, Size DEF Idx
      <4> QED BY <4>1, <3>2, <2>1, <2>6 DEF Inv, Work
    <3> QED BY <3>1, <3>2
  <2>8. \A k \in (j')..(N - i') : a'[k] = B(i' - 1, k)
    <3> TAKE k \in (j')..(N - i')
    <3>1. k \in j..(N - i) /\ k \in Idx /\ k # j
      BY <2>1, Size DEF Idx
    <3> QED BY <3>1, <2>1, <2>6 DEF Inv, Work
  <2>9. Work'
    BY <2>1, <2>7, <2>8, Size DEF Work
  <2>10. Saved'
    BY <2>1 DEF Inv, Saved, Levels
  <2> QED BY <2>1, <2>3, <2>9, <2>10 DEF Inv
<1>4. CASE EndLevel
  <2>1. pc = "inner" /\ pc' = "level" /\ i' = i + 1 /\ a' = a /\ l' = l /\ r' = r /\ j' = j
        /\ i \in 1..N /\ j = N - i
    BY <1>4, Size DEF EndLevel, Inv, Bounds
  <2>2. Bounds'
    BY <2>1, Size DEF Inv, Bounds
  <2>3. \A k \in 0..(N - i') : a'[k] = B(i' - 1, k)
    BY <2>1, Size DEF Inv, Work
  <2>4. i' = N + 1 => a'[0] = B(N - 1, 0)
    <3>1. ASSUME i = N PROVE a[0] = B(N - 1, 0)
      BY <3>1, <2>1, Size DEF Inv, Work
    <3> QED BY <3>1, <2>1, Size
  <2>5. Work'
    BY <2>1, <2>3, <2>4 DEF Work
  <2>7. Saved'
    <3>1. Levels = i /\ Levels' = i
      BY <2>1 DEF Levels
    <3> QED BY <3>1, <2>1 DEF Inv, Saved
  <2> QED BY <2>1, <2>2, <2>5, <2>7 DEF Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Next

(* when the loop over the levels is left, i = N + 1 *)
THEOREM Result ==
  Inv /\ pc = "level" /\ ~(i <= N) =>
    /\ a[0] = B(N - 1, 0)                                                  \* eval
    /\ \A m \in Idx : l[m] = B(m, 0) /\ r[m] = B(N - 1 - m, m)             \* split
<1> SUFFICES ASSUME Inv, pc = "level", ~(i <= N)
    PROVE a[0] = B(N - 1, 0) /\ \A m \in Idx : l[m] = B(m, 0) /\ r[m] = B(N - 1 - m, m)
  OBVIOUS
<1>1. i = N + 1
  BY Size DEF Inv, Bounds
<1>2. a[0] = B(N - 1, 0)
  BY <1>1 DEF Inv, Work
<1>3. \A m \in 0..(N - 1) : l[m] = B(m, 0) /\ r[N - 1 - m] = B(m, N - 1 - m)
  BY <1>1, Size DEF Inv, Saved, Levels
<1> SUFFICES ASSUME NEW m \in Idx PROVE l[m] = B(m, 0) /\ r[m] = B(N - 1 - m, m)
  BY <1>2
<1>4. m \in 0..(N - 1) /\ N - 1 - m \in 0..(N - 1) /\ N - 1 - (N - 1 - m) = m
  BY Size DEF Idx
<1> QED BY <1>3, <1>4, Size

(* the parts meet in the point of the curve, bit by bit, and keep its ends *)
COROLLARY Joint ==
  Inv /\ pc = "level" /\ ~(i <= N) => l[N - 1] = a[0] /\ r[0] = a[0] /\ l[0] = P[0] /\ r[N - 1] = P[N - 1]
<1> SUFFICES ASSUME Inv, pc = "level", ~(i <= N)
    PROVE l[N - 1] = a[0] /\ r[0] = a[0] /\ l[0] = P[0] /\ r[N - 1] = P[N - 1]
  OBVIOUS
<1>1. a[0] = B(N - 1, 0) /\ \A m \in Idx : l[m] = B(m, 0) /\ r[m] = B(N - 1 - m, m)
  BY Result
<1>2. 0 \in Idx /\ N - 1 \in Idx /\ N - 1 - 0 = N - 1 /\ N - 1 - (N - 1) = 0
  BY Size DEF Idx
<1>3. B(0, 0) = P[0] /\ B(0, N - 1) = P[N - 1]
  BY <1>2, Base DEF Idx
<1> QED BY <1>1, <1>2, <1>3
==============================================================================
