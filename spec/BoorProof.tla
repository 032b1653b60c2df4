------------------------------ MODULE BoorProof -------------------------------
(* De Boor's triangular loop in its work array (bspline.rs), for every        *)
(* degree and every type of point: an unbounded proof, checked by TLAPS.      *)
(* Nothing is assumed of A, the combination in round r at slot j: walking     *)
(* downwards, the array computes De Boor's triangle, whatever the rounding.   *)
(* (SpanProof: the span is found, and all indices exist; AlgoSpline and Laws  *)
(* by TLC: the triangle is the Cox-de Boor sum.)                              *)
EXTENDS Integers, TLAPS

CONSTANTS D,               \* degree
          W,               \* the D + 1 control points of the span
          A(_, _, _, _),   \* round, slot, d[j - 1], d[j]
          E(_, _)          \* De Boor's triangle: round, slot

ASSUME Size == D \in Nat
ASSUME Given == W = [k \in 0..D |-> W[k]]
ASSUME Base == \A k \in 0..D : E(0, k) = W[k]
ASSUME Triangle == \A m \in 1..D : \A k \in m..D : E(m, k) = A(m, k, E(m - 1, k - 1), E(m - 1, k))

VARIABLES d, r, j, pc
vars == <<d, r, j, pc>>

Init == d = W /\ r = 1 /\ j = D /\ pc = "round"
Round == pc = "round" /\ r <= D /\ j' = D /\ pc' = "inner" /\ UNCHANGED <<d, r>>
Inner ==
  /\ pc = "inner" /\ j >= r
  /\ d' = [d EXCEPT ![j] = A(r, j, d[j - 1], d[j])]
  /\ j' = j - 1 /\ UNCHANGED <<r, pc>>
EndRound == pc = "inner" /\ ~(j >= r) /\ r' = r + 1 /\ pc' = "round" /\ UNCHANGED <<d, j>>
Next == Round \/ Inner \/ EndRound

Inv ==
  /\ r \in 1..(D + 1) /\ j \in 0..D /\ pc \in {"round", "inner"} /\ DOMAIN d = 0..D
  /\ pc = "inner" => r <= D /\ j >= r - 1        \* so j - 1 exists whenever it is read
  /\ pc = "round" => \A k \in (r - 1)..D : d[k] = E(r - 1, k)
  /\ pc = "inner" => /\ \A k \in (j + 1)..D : d[k] = E(r, k)
                     /\ \A k \in (r - 1)..j : d[k] = E(r - 1, k)

THEOREM Start == Init => Inv
  BY Size, Given, Base DEF Init, Inv

THEOREM Preserved == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1>1. CASE UNCHANGED vars
  BY <1>1 DEF vars, Inv
<1>2. CASE Round
  BY <1>2, Size DEF Round, Inv
<1>3. CASE Inner
  <2>1. pc = "inner" /\ pc' = "inner" /\ r' = r /\ j' = j - 1 /\ r \in 1..D /\ j \in r..D /\ DOMAIN d = 0..D
    BY <1>3, Size DEF Inner, Inv
  <2>2. d[j - 1] = E(r - 1, j - 1) /\ d[j] = E(r - 1, j)
    BY <2>1, Size DEF Inv
  <2>3. d'[j] = E(r, j) /\ DOMAIN d' = 0..D
    <3>1. d'[j] = A(r, j, d[j - 1], d[j]) /\ DOMAIN d' = 0..D
      BY <1>3, <2>1, Size DEF Inner
    <3> QED BY <3>1, <2>1, <2>2, Triangle
  <2>4. \A k \in 0..D : k # j => d'[k] = d[k]
    BY <1>3, <2>1 DEF Inner
  <2>5. \A k \in (j' + 1)..D : d'[k] = E(r', k)
    <3> TAKE k \in (j' + 1)..D
    <3>1. CASE k = j
      BY <3>1, <2>1, <2>3
    <3>2. CASE k # j
      <4>1. k \in (j + 1)..D /\ k \in 0..D
        BY <3>2, <2>1, Size
      <4> QED BY <4>1, <3>2, <2>1, <2>4 DEF Inv
    <3> QED BY <3>1, <3>2
  <2>6. \A k \in (r' - 1)..j' : d'[k] = E(r' - 1, k)
    <3> TAKE k \in (r' - 1)..j'
    <3>1. k \in (r - 1)..j /\ k \in 0..D /\ k # j
      BY <2>1, Size
    <3> QED BY <3>1, <2>1, <2>4 DEF Inv
  <2> QED BY <2>1, <2>3, <2>5, <2>6, Size DEF Inv
<1>4. CASE EndRound
  <2>1. pc = "inner" /\ pc' = "round" /\ r' = r + 1 /\ d' = d /\ j' = j /\ r \in 1..D /\ j = r - 1
    BY <1>4, Size DEF EndRound, Inv
  <2> QED BY <2>1, Size DEF Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Next

(* when the loop over the rounds is left, r = D + 1 *)
THEOREM Result == Inv /\ pc = "round" /\ ~(r <= D) => d[D] = E(D, D)
<1> SUFFICES ASSUME Inv, pc = "round", ~(r <= D) PROVE d[D] = E(D, D)
  OBVIOUS
<1>1. r = D + 1 /\ D \in (r - 1)..D /\ r - 1 = D
  BY Size DEF Inv
<1> QED BY <1>1 DEF Inv
==============================================================================
