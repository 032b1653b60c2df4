---------------------------- MODULE AlgoSpline -----------------------------
(***************************************************************************)
(* bspline.rs step by step: the knot kind that the constructor assigns,    *)
(* the derivative (which keeps the kind), the domain test, the four knot   *)
(* span searches (two different binary searches), and de Boor's triangular *)
(* loop in its work array.  Checked over every knot vector with the given  *)
(* gaps (every order type of knots) and every parameter of Params and a    *)
(* few outside: C10, C11, C12; the searches end; no index leaves its       *)
(* array or goes below zero.                                               *)
(***************************************************************************)
EXTENDS Laws
CONSTANTS C, D, MaxGap, Derivs,   \* at most Derivs derivatives before the evaluation
          Variant
ASSUME Variant \in {"code", "end for every kind", "span from zero", "upper search bound", "copy D points",
                    "no domain test", "kind recomputed", "early exit of the search"}

VARIABLES u, pts, d, kind,    \* the spline: knots, control points (numerals), degree, kind
          k0,                 \* the first spline, for the exact result
          t, lo, hi, k, w, r, j, res, pc
vars == <<u, pts, d, kind, k0, t, lo, hi, k, w, r, j, res, pc>>

RECURSIVE Vectors(_, _)
Vectors(n, x) == IF n = 1 THEN {<<x>>} ELSE {<<x>> \o v : v \in UNION {Vectors(n - 1, x + g) : g \in 0..MaxGap}}
Generic == <<3, -2, 7, 1, -5, 11>>
Num(x) == RNum(x)
Lt(x, y) == RLt(Num(x), Num(y))
Le(x, y) == RLe(Num(x), Num(y))
Eq(x, y) == REq(Num(x), Num(y))
U(i) == u[i + 1]                     \* zero-based, as in the code
KindOf(v, deg) ==
  LET n == Len(v)
      front == \A i \in 1..(deg + 1) : Eq(v[i], v[1])
      back == \A i \in (n - deg)..n : Eq(v[i], v[n])
  IN  CASE front /\ back -> "both" [] front -> "start" [] back -> "end" [] OTHER -> "none"

Init ==
  \E v \in Vectors(C + D + 1, 0) :
    /\ u = [i \in 1..Len(v) |-> ToString(v[i])]
    /\ pts = [i \in 1..C |-> ToString(Generic[i])]
    /\ d = D /\ kind = KindOf(u, D)
    /\ k0 = [u |-> u, pts |-> pts]
    /\ t = "-" /\ lo = 0 /\ hi = 0 /\ k = 0 /\ w = <<>> /\ r = 0 /\ j = 0 /\ res = "-" /\ pc = "curve"
Cp == Len(pts)
NumsU == Nums(u)
PolyP == RSeq([i \in 1..Cp |-> <<Num(pts[i])>>])
Derive ==
  /\ pc = "curve" /\ D - d < Derivs /\ d >= 1 /\ Cp >= 2
  /\ Proper(NumsU, Cp, d)                         \* otherwise a quotient of the loop is not a number
  /\ pts' = [i \in 1..(Cp - 1) |->
               RStr(RMul(RSub(Num(pts[i + 1]), Num(pts[i])), Ratio(RInt(d), RSub(Num(U(i - 1 + d + 1)), Num(U(i))))))]
  /\ u' = SubSeq(u, 2, Len(u) - 1) /\ d' = d - 1
  /\ kind' = IF Variant = "kind recomputed" THEN KindOf(u', d') ELSE kind
  /\ UNCHANGED <<k0, t, lo, hi, k, w, r, j, res, pc>>
Outside == LET s == Nums(k0.u) IN {RSub(s[1], R1), RAdd(s[Len(s)], RHalf), RSub(DomLo(s, C, D), RQ(1, 7)), RAdd(DomHi(s, C, D), RQ(1, 7))}
Call ==
  /\ pc = "curve"
  /\ \E x \in {Params(NumsU, Cp, d)[i] : i \in 1..Len(Params(NumsU, Cp, d))} \cup Outside : t' = RStr(x)
  /\ pc' = "domain" /\ UNCHANGED <<u, pts, d, kind, k0, lo, hi, k, w, r, j, res>>
Return(x) == res' = x /\ pc' = "done"
Same == UNCHANGED <<u, pts, d, kind, k0, t>>
Domain ==
  /\ pc = "domain" /\ Same /\ UNCHANGED <<lo, hi, k, w, r, j>>
  /\ IF Variant # "no domain test" /\ (Lt(t, U(d)) \/ Lt(U(Len(u) - 1 - d), t)) THEN Return("error")
     ELSE IF Eq(t, U(Cp)) /\ (kind \in {"both", "end"} \/ Variant = "end for every kind") THEN Return(pts[Cp])
     ELSE pc' = "span" /\ UNCHANGED res
(* the span searches: lo is `first` or `low`, hi is `count` or `high` *)
n == Cp - 1
Span0 ==
  /\ pc = "span" /\ Same /\ UNCHANGED <<w, r, j, res>>
  /\ IF Eq(t, U(n + 1)) THEN k' = n /\ pc' = "copy" /\ UNCHANGED <<lo, hi>>
     ELSE /\ lo' = IF Variant = "span from zero" THEN 0 ELSE d
          /\ hi' = IF kind = "none" THEN n + 1 - d ELSE IF Variant = "upper search bound" THEN n + 1 ELSE n
          /\ pc' = "search" /\ UNCHANGED k
Found(x) == k' = x /\ pc' = "copy" /\ UNCHANGED <<lo, hi, res>>
NotFound == Return("error") /\ UNCHANGED <<lo, hi, k>>
Halving ==                           \* kind "none": first and count
  /\ pc = "search" /\ kind = "none" /\ Same /\ UNCHANGED <<w, r, j>>
  /\ LET step == hi \div 2
         it == lo + step
     IN  IF hi <= 0 THEN NotFound
         ELSE IF Le(U(it), t) /\ Lt(t, U(it + 1)) THEN Found(it)
         ELSE IF Le(U(it), t) THEN lo' = it + 1 /\ hi' = hi - (step + 1) /\ UNCHANGED <<k, res, pc>>
         ELSE hi' = step /\ UNCHANGED <<lo, k, res, pc>>
Bisect ==                            \* the other kinds: low and high
  /\ pc = "search" /\ kind # "none" /\ Same /\ UNCHANGED <<w, r, j>>
  /\ LET mid == (lo + hi) \div 2
     IN  IF lo > hi \/ (Variant = "early exit of the search" /\ lo = hi) THEN NotFound
         ELSE IF Le(U(mid), t) /\ Lt(t, U(mid + 1)) THEN Found(mid)
         ELSE IF Lt(t, U(mid)) THEN hi' = mid - 1 /\ UNCHANGED <<lo, k, res, pc>>
         ELSE lo' = mid + 1 /\ UNCHANGED <<hi, k, res, pc>>
NoUnderflow == hi >= 0               \* `mid - 1` is computed in usize
Copy ==
  /\ pc = "copy" /\ Same /\ UNCHANGED <<lo, hi, k, res>>
  /\ w' = [i \in 1..(d + 1) |-> IF Variant = "copy D points" /\ i = d + 1 /\ d > 0 THEN "0" ELSE pts[i - 1 + k - d + 1]]
  /\ r' = 1 /\ j' = d /\ pc' = "boor"
Boor ==
  /\ pc = "boor" /\ Same /\ UNCHANGED <<lo, hi, k>>
  /\ IF r > d THEN Return(w[d + 1]) /\ UNCHANGED <<w, r, j>>
     ELSE IF j < r THEN r' = r + 1 /\ j' = d /\ UNCHANGED <<w, res, pc>>
     ELSE LET num == RSub(Num(t), Num(U(j + k - d)))
              den == RSub(Num(U(j + 1 + k - r)), Num(U(j + k - d)))
              al == IF RLe(num, R0) THEN R0 ELSE IF REq(den, R0) THEN R1 ELSE RDiv(num, den)
          IN  /\ w' = [w EXCEPT ![j + 1] = RStr(RAdd(RMul(Num(w[j]), RSub(R1, al)), RMul(Num(w[j + 1]), al)))]
              /\ j' = j - 1 /\ UNCHANGED <<r, res, pc>>
Next == Derive \/ Call \/ Domain \/ Span0 \/ Halving \/ Bisect \/ Copy \/ Boor \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Call \/ Domain \/ Span0 \/ Halving \/ Bisect \/ Copy \/ Boor)

Inside == InDomain(NumsU, Cp, d, Num(t))
DomainKept == LET s == Nums(k0.u) IN /\ REq(DomLo(NumsU, Cp, d), DomLo(s, C, D)) /\ REq(DomHi(NumsU, Cp, d), DomHi(s, C, D))
OnDomain  == pc = "done" => (res # "error" <=> Inside)                        \* C10
NonEmptyDomain == RLt(DomLo(NumsU, Cp, d), DomHi(NumsU, Cp, d))
FirstProper == Proper(Nums(k0.u), C, D)
CoxDeBoor == pc = "done" /\ Inside /\ FirstProper =>                          \* C11
               REq(Num(res), SplPoint(NumsU, PolyP, d, Num(t))[1])
Slope == pc = "done" /\ Inside /\ FirstProper /\ d = D - 1 =>                 \* C12
           REq(Num(res), SplDeriv(Nums(k0.u), RSeq([i \in 1..C |-> <<Num(k0.pts[i])>>]), D, Num(t))[1])
Terminates == <>(pc = "done")
=============================================================================
