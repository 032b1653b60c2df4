------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Use of the library: one curve, and the calls that produce a new one.    *)
(* Every behaviour is a program for the driver.  TLC checks the laws in    *)
(* every state, and prints the program of every behaviour of MaxOps calls  *)
(* followed by the observing calls that the property under check judges.   *)
(***************************************************************************)
EXTENDS Laws, IOUtils
CONSTANTS Kind,       \* kind of the first curve
          N,          \* its number of control points
          Degree,     \* its degree, for a spline
          Axn,
          Coords,     \* coordinates of its control points, each increased by one (a TLC configuration has no negative numbers)
          MaxGap,     \* knot differences are 0..MaxGap
          MaxOps,
          CheckLaws

Property == IOEnv.PROPERTY
VARIABLES c,          \* the curve
          h           \* the calls so far
vars == <<c, h>>

T == {R0, R1, RHalf, RQ(1, 3), RQ(3, 4)}
SplitAt == {"0", "1", "1/2", "1/3"}

F(s) == "f" \o s                       \* a float token of the driver, from a numeral
PtToks(p) == RJoin([d \in 1..Len(p) |-> F(p[d])])
PolyToks(S) == RJoin([i \in 1..Len(S) |-> PtToks(S[i])])
FsToks(s) == RJoin([i \in 1..Len(s) |-> F(s[i])])
Seg == IF Property = "C15" THEN "seg" ELSE ""
Pty == CASE Property = "C16" -> (IF Axn = 2 THEN "u2" ELSE "u3")
         [] OTHER -> "pn" \o ToString(Axn)

(* ------------------------------- states -------------------------------- *)
RECURSIVE Knots(_, _)
Knots(n, u) == IF n = 1 THEN {<<u>>} ELSE {<<u>> \o r : r \in UNION {Knots(n - 1, u + g) : g \in 0..MaxGap}}
Generic == <<3, -2, 7, 1, -5, 11, 4, -8>>     \* control points of splines: the value at t pins down the basis
NewBez ==
  \E f \in [1..N -> [1..Axn -> Coords]] :
    LET pts == RSeq([i \in 1..N |-> RSeq([d \in 1..Axn |-> ToString(f[i][d] - 1)])])
    IN  /\ c = [kind |-> Kind, deg |-> N - 1, pts |-> pts, knots |-> <<>>]
        /\ h = <<RJoin(<<"new", Seg \o Kind, ToString(N), PolyToks(pts)>>)>>
NewSpl ==
  \E u \in Knots(N + Degree + 1, 0) :
    LET pts == RSeq([i \in 1..N |-> RSeq([d \in 1..Axn |-> ToString(Generic[((i + 2 * d - 3) % 8) + 1])])])
        kn == RSeq([i \in 1..Len(u) |-> ToString(u[i])])
    IN  /\ c = [kind |-> "spl", deg |-> Degree, pts |-> pts, knots |-> kn]
        /\ h = <<RJoin(<<"new", "spl", ToString(Len(kn)), ToString(N), ToString(Degree), FsToks(kn), PolyToks(pts)>>)>>
Init == IF Kind = "spl" THEN NewSpl ELSE NewBez

(* --------------------------------- calls ------------------------------- *)
Does(d, call) == c' = d /\ h' = Append(h, call)
Can == Len(h) <= MaxOps
Deriving == Property \notin {"C15"}
Split == /\ Can /\ IsBez(c) /\ Property \notin {"C10", "C11", "C12", "C13"}
         /\ \E t \in SplitAt : \E side \in {"l", "r"} :
              Does(IF side = "l" THEN LeftOf(c, RNum(t)) ELSE RightOf(c, RNum(t)),
                   RJoin(<<"split", F(t), side, "1", F("1/2")>>))
Derive == /\ Can /\ Property # "C15" /\ c.kind # "line" /\ c.deg > 1
          /\ c.kind = "spl" => Specified(c)
          /\ Does(DerivOf(c), "deriv y 1 " \o F(IF c.kind = "spl" THEN c.knots[c.deg + 1] ELSE "1/2"))
Targets(x) == CASE x.kind = "line" -> {"bez", "quad", "cubic", "spl"} [] x.kind = "quad" -> {"bez", "cubic", "spl"}
                [] x.kind = "cubic" -> {"bez", "spl"}
                [] x.kind = "bez" -> {"spl"} \cup (IF x.deg = 1 THEN {"line"} ELSE {}) \cup (IF x.deg \in 1..2 THEN {"quad"} ELSE {})
                                     \cup (IF x.deg \in 1..3 THEN {"cubic"} ELSE {})
                [] OTHER -> {}
Recast == /\ Can /\ Property = "C19" /\ c.deg >= 1
          /\ \E to \in Targets(c) : Does(RecastOf(c, to), "recast " \o to)
Mutate == /\ Can /\ Property = "C18" /\ c.kind = "bez"
          /\ \E i \in 1..Len(c.pts) : \E x \in {"5", "-1/2"} :
               LET p == [d \in 1..Axn |-> x] IN Does(SetPoint(c, i, p), RJoin(<<"set", ToString(i), PtToks(p)>>))
Next == Split \/ Derive \/ Recast \/ Mutate
Spec == Init /\ [][Next]_vars

(* -------------------------- observing calls ---------------------------- *)
(* query points: on, next to, and beyond the curve, and the origin *)
Q == LET p == Poly(c.pts)
         mid == IF IsBez(c) THEN BezPoint(p, RQ(33, 64)) ELSE p[1]
         off(x, e) == RSeq([d \in 1..Axn |-> RAdd(x[d], IF d = 1 THEN e ELSE RMul(RHalf, e))])
     IN  {mid, off(mid, RQ(1, 8)), off(p[1], RQ(-1, 2)), off(p[Len(p)], RQ(3, 1)), RSeq([d \in 1..Axn |-> R0])}
QToks == SetToSeq({PtToks(PtStr(q)) : q \in Q})
Tols == LET p == Poly(c.pts)
            n == Len(p)
            seg == {SegSqDist(p[1], p[n], p[i]) : i \in 1..n}
            pw == {SqDist(p[1], p[i]) : i \in 1..n} \cup {SqDist(p[n], p[i]) : i \in 1..n}
            r == {RSqrtHi(x) : x \in seg \cup pw}
        IN  {R0, R1} \cup UNION {{RMul(x, RQ(1025, 1024)), RMul(x, RQ(1023, 1024)), RMul(x, RHalf)} : x \in r}
TolToks == SetToSeq({F(RStr(x)) : x \in Tols})
Each(pre, s, post) == RJoin([i \in 1..Len(s) |-> pre \o s[i] \o post])
ObsT == <<F("0"), F("1"), F("1/2"), F("1/3"), F("5/7")>>
Evals(name) == Each(name \o " ", ObsT, "")
Dists == Each("dist ", QToks, "")
Lens == "arclen 1 arclen 2 arclen 3 arclen 5"
Curved == c.kind \in {"quad", "cubic"}
Box == IF c.kind \in {"line", "quad", "cubic"} THEN "bbox" ELSE ""
Flats == IF Curved THEN "baseline " \o Each("linear ", TolToks, " n") \o " " \o Each("apoint ", TolToks, " n") ELSE ""
Directs == IF Curved THEN Evals("dd") ELSE ""
DerivN == IF c.deg >= 1 THEN "deriv n 5 " \o RJoin(ObsT) ELSE ""
Splits == Each("split ", ObsT, " n 3 " \o RJoin(<<F("0"), F("1/3"), F("1")>>))
BezAll == RJoin(<<Evals("eval"), Splits, DerivN, Directs, Box, Dists, IF c.kind # "line" THEN Lens ELSE "", Flats>>)
Paired(why, s) == Each("pair " \o why \o " ", s, "")
PairBez(why) ==
  RJoin(<<Paired(why, <<"eval " \o F("1/3"), "eval " \o F("1"), "split " \o F("1/3") \o " 1 " \o F("1/2")>>),
          IF c.deg >= 1 THEN Paired(why, <<"deriv 2 f0 f1/3">>) ELSE "",
          IF Box # "" THEN Paired(why, <<"bbox">>) ELSE "",
          Paired(why, [i \in 1..Len(QToks) |-> "dist " \o QToks[i]]),
          IF c.kind # "line" THEN Paired(why, <<"arclen 1", "arclen 3">>) ELSE "",
          IF Curved THEN Paired(why, <<"baseline">> \o [i \in 1..Len(TolToks) |-> "linear " \o TolToks[i]]
                                              \o [i \in 1..Len(TolToks) |-> "apoint " \o TolToks[i]]) ELSE "">>)
SplTs == LET u == Nums(c.knots)
             C == Len(c.pts)
             all == u \o MidsOf(u) \o <<RSub(u[1], R1), RAdd(u[Len(u)], R1)>>
         IN  SetToSeq({F(RStr(all[i])) : i \in 1..Len(all)})
InTs == LET u == Nums(c.knots)
            p == Params(u, Len(c.pts), c.deg)
        IN  SetToSeq({F(RStr(p[i])) : i \in 1..Len(p)})
SplDerivN == IF Specified(c) /\ c.deg >= 1 THEN "deriv n " \o ToString(Len(InTs)) \o " " \o RJoin(InTs) ELSE ""
SplAll == RJoin(<<"domain", Each("eval ", SplTs, ""), SplDerivN, IF Specified(c) /\ c.deg >= 1 THEN Lens ELSE "">>)
SegObs == RJoin(<<"ends points pair inner baseline",
                  Paired("inner", <<"eval f0", "eval f1", "eval f1/3", "split f1/3 2 f0 f1/2", "split f1 1 f1/2">>),
                  IF c.kind = "line" THEN "pair inner linear f0" ELSE Paired("inner", [i \in 1..Len(TolToks) |-> "linear " \o TolToks[i]])>>)
(* the same kind with the same points, one coordinate changed at each place, the points reversed, and the other kinds *)
Others == {c.pts, RSeq([i \in 1..Len(c.pts) |-> c.pts[Len(c.pts) + 1 - i]])}
          \cup {SetPoint(c, i, [c.pts[i] EXCEPT ![d] = RStr(RAdd(RNum(@), RQ(1, 1048576)))]).pts : i \in 1..Len(c.pts), d \in 1..Axn}
Compares == Each("eq ", SetToSeq({RJoin(<<c.kind, ToString(Len(P)), PolyToks(P)>>) : P \in Others}), "")
Copies == RJoin(<<"copy 0", IF c.kind = "bez" THEN RJoin(<<"copy 1", PtToks(PtStr([d \in 1..Axn |-> RQ(7, 3)]))>>) ELSE "">>)
Observing ==
  CASE Property = "C01" -> Evals("eval")
    [] Property = "C02" -> Splits
    [] Property = "C03" -> RJoin(<<DerivN, Directs>>)
    [] Property = "C04" -> Box
    [] Property \in {"C05", "C06"} -> Dists
    [] Property = "C07" -> IF c.kind = "line" THEN "" ELSE Lens
    [] Property = "C08" -> Flats
    [] Property = "C10" -> RJoin(<<"domain", Each("eval ", SplTs, "")>>)
    [] Property = "C11" -> Each("eval ", InTs, "")
    [] Property = "C12" -> IF Specified(c) /\ c.deg >= 1
                           THEN "deriv n " \o ToString(Len(SplTs)) \o " " \o RJoin(SplTs) ELSE ""
    [] Property = "C13" -> IF Specified(c) /\ c.deg >= 1 THEN Lens ELSE ""
    [] Property = "C15" -> SegObs
    [] Property = "C16" -> IF IsBez(c) THEN PairBez("builtin")
                           ELSE RJoin(<<"pair builtin domain", Each("pair builtin eval ", SplTs, ""),
                                  IF Specified(c) /\ c.deg >= 1 THEN "pair builtin arclen 3 pair builtin deriv 2 " \o InTs[1] \o " " \o InTs[Len(InTs)] ELSE "">>)
    [] Property = "C17" -> IF IsBez(c) THEN BezAll ELSE SplAll
    [] Property = "C18" -> RJoin(<<"points", IF IsBez(c) THEN BezAll ELSE SplAll, "points",
                                   IF c.kind = "bez" THEN PairBez("fresh") ELSE "">>)
    [] Property = "C19" -> RJoin(<<IF IsBez(c) THEN Evals("evali") ELSE IF Specified(c) THEN Each("evali ", InTs, "") ELSE "",
                             IF IsBez(c) THEN RJoin([i \in 1..Len(SetToSeq(Targets(c))) |->
                               LET to == SetToSeq(Targets(c))[i]
                               IN  IF c.deg = 0 THEN "" ELSE
                                   RJoin(<<Paired(to, <<"eval f1/3", "deriv 2 f0 f1/3">>),
                                           IF c.kind # "line" /\ to # "line" THEN Paired(to, <<"arclen 3">>) ELSE "">>)]) ELSE "">>)
    [] Property = "C20" -> RJoin(<<IF c.kind \in {"line", "quad", "cubic"} THEN Compares ELSE "", Copies,
                                   IF IsBez(c) THEN PairBez("copy") ELSE Each("pair copy eval ", SplTs, "")>>)
    [] OTHER -> ""
Prog == LET o == Observing IN o # "" => PrintT("PROG " \o RJoin(<<Pty>> \o h \o <<o>>))
Emit == Len(h) = MaxOps + 1 => Prog
(* a behaviour that cannot be extended is printed too *)
EmitStuck == (Len(h) <= MaxOps /\ ~ ENABLED Next) => Prog
LawsHold == CheckLaws => CurveLaws(c, Q, T)
ConstructorAccepts == c.kind = "spl" => Violated(c.knots, Len(c.pts), c.deg) = {}
=============================================================================
