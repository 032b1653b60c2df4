------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded sessions.  A session is a sequence of events,    *)
(* one per API call on the real library, recorded at the call's return.    *)
(* Every session is a behaviour: `cur` is the curve the library holds (its *)
(* control points as recorded), `ideal` the curve that the same calls      *)
(* produce in exact arithmetic, `bad` the clauses that an event violated.  *)
(* One action per kind of call; TLC explores all sessions of the file.     *)
(***************************************************************************)
EXTENDS Points, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Property == IOEnv.PROPERTY                 \* the property that is being decided
CheckAlloc == Property = "C17"
CheckIdeal == Property = "C19"
(* the calls that a property speaks about; the others only move the state *)
JudgedCalls ==
  [C01 |-> {"eval"}, C02 |-> {"split"}, C03 |-> {"deriv", "dd"}, C04 |-> {"bbox"}, C05 |-> {"dist"},
   C06 |-> {"dist"}, C07 |-> {"arclen"}, C08 |-> {"linear", "apoint", "baseline"},
   C09 |-> {"new", "points"}, C10 |-> {"domain", "eval"}, C11 |-> {"eval"}, C12 |-> {"deriv"},
   C13 |-> {"arclen"}, C14 |-> {"pt", "oob"}, C15 |-> {"pair", "ends", "points", "split"}, C16 |-> {"new", "pair"},
   C17 |-> {}, C18 |-> {"new", "points", "set", "pair"},
   C19 |-> {"evali", "split", "deriv", "recast", "pair"}, C20 |-> {"eq", "copy", "pair"}]
Judged == JudgedCalls[Property]

VARIABLES sid,    \* the session
          l,      \* position of the next event
          cur,    \* the curve, as the library reported it
          ideal,  \* [c |-> exact curve, s |-> numeral: scale of its rounding] 
          bad     \* violated clauses of the last event
vars == <<sid, l, cur, ideal, bad>>

NoCurve == [kind |-> "none", deg |-> 0, pts |-> <<>>, knots |-> <<>>]
NoIdeal == [c |-> NoCurve, s |-> "0"]

Ev == Sessions[sid].ev
More == l <= Len(Ev)
Is(op) == More /\ bad = {} /\ Ev[l].op = op
e == Ev[l]

Init == /\ sid \in 1..Len(Sessions)
        /\ l = 1 /\ cur = NoCurve /\ ideal = NoIdeal /\ bad = {}

AllNums(S) == \A i \in 1..Len(S) : \A d \in 1..Len(S[i]) : RIsNum(S[i][d])
Usable == e.st = "ok" =>
  CASE e.op = "split" -> AllNums(e.l) /\ AllNums(e.rt)
    [] e.op \in {"deriv", "recast"} -> AllNums(e.cp)
    [] OTHER -> TRUE
Judge(clauses) == /\ bad' = IF CheckAlloc THEN (IF e.op = "oob" THEN {} ELSE Returned(e, AllocFails(e)))
                            ELSE IF e.op \in Judged \cup {"stuck"} THEN Returned(e, clauses) ELSE {}
                  /\ l' = IF Usable THEN l + 1 ELSE Len(Ev) + 1   \* nothing follows a curve without numbers
                  /\ UNCHANGED sid
Observe(clauses) == Judge(clauses) /\ UNCHANGED <<cur, ideal>>

(* the next curve: c as recorded, x exact with rounding scale s *)
Becomes(c, x, s) == IF e.st = "ok" THEN /\ cur' = c
                                        /\ ideal' = IF CheckIdeal THEN [c |-> x, s |-> RStr(s)] ELSE NoIdeal
                    ELSE UNCHANGED <<cur, ideal>>
NearIdeal(S, x, s) == NearPoly(S, Poly(x.pts), Tol(s))
IScale == RNum(ideal.s)

NewBezier ==
  /\ Is("new") /\ e.kind # "spl"
  /\ LET c == [kind |-> e.kind, deg |-> Len(e.pts) - 1, pts |-> e.pts, knots |-> <<>>]
     IN  Judge(IF Property = "C16" THEN {} ELSE NewBezFails(e)) /\ Becomes(c, c, Scale(Poly(c.pts)))
NewSpline ==
  /\ Is("new") /\ e.kind = "spl"
  /\ LET c == [kind |-> "spl", deg |-> e.d, pts |-> e.pts, knots |-> e.knots]
     IN  /\ Judge(NewSplFails(e))
         /\ IF e.st = "ok" /\ e.err = "" THEN Becomes(c, c, Scale(Poly(c.pts))) ELSE UNCHANGED <<cur, ideal>>

Eval   == Is("eval") /\ IsBez(cur) /\ Observe(BezEvalFails(cur, e))
SEval  == Is("eval") /\ ~ IsBez(cur) /\ Observe(IF Property = "C10" THEN SplDomainFails(cur, e) ELSE SplValueFails(cur, e))
IdealAt(t) == NearPt(e.r[1].p, PointAt(ideal.c, t), Tol(IScale))
(* the current curve's value is that of the exact composition *)
EvalI  == Is("evali") /\ Observe(Clause("value of the composed operations", IdealAt(RNum(e.t))))

Split ==
  /\ Is("split")
  /\ LET t == RNum(e.t)
         li == LeftOf(ideal.c, t)
         ri == RightOf(ideal.c, t)
     IN  /\ Judge(CASE Property = "C19" -> Clause("the parts are those of the composed operations",
                                              NearIdeal(e.l, li, IScale) /\ NearIdeal(e.rt, ri, IScale))
                    [] Property = "C15" -> Clause("both parts keep the kind", e.lk = cur.kind /\ e.rk = cur.kind)
                    [] OTHER -> SplitFails(cur, e))
         /\ CASE e.keep = "l" -> Becomes([cur EXCEPT !.pts = e.l], li, IScale)
              [] e.keep = "r" -> Becomes([cur EXCEPT !.pts = e.rt], ri, IScale)
              [] OTHER -> UNCHANGED <<cur, ideal>>

(* derivative scale: differences of control points times degree / knot gap *)
DScale(x) == IF IsBez(x) THEN RInt(2 * x.deg)
             ELSE LET u == Nums(x.knots)
                      gaps == [i \in 1..(Len(x.pts) - 1) |-> RSub(u[i + x.deg + 1], u[i + 1])]
                  IN  RDiv(RInt(2 * x.deg), SeqMin(SelectSeq(gaps, LAMBDA g : RLt(R0, g))))
DerivFails == IF IsBez(cur) THEN BezDerivFails(cur, e) ELSE SplDerivFails(cur, e)
Derive ==
  /\ Is("deriv")
  /\ IF e.keep # "y" THEN Observe(IF CheckIdeal THEN {} ELSE DerivFails)
     ELSE LET x == DerivOf(ideal.c)
              s == RMul(DScale(ideal.c), IScale)
          IN  /\ Judge(IF CheckIdeal THEN Clause("the derivative is that of the composed operations", NearIdeal(e.cp, x, s))
                       ELSE DerivFails)
              /\ Becomes([kind |-> e.k, deg |-> cur.deg - 1, pts |-> e.cp, knots |-> e.kn], x, s)
Direct == Is("dd") /\ Observe(DirectFails(cur, e))

Box      == Is("bbox") /\ Observe(BoxFails(cur, e))
Distance == Is("dist") /\ Observe(IF cur.kind = "line" THEN LineDistFails(cur, e) ELSE CurveDistFails(cur, e))
Length   == Is("arclen") /\ Observe(IF IsBez(cur) THEN BezLengthFails(cur, e) ELSE SplLengthFails(cur, e))
Linear   == Is("linear") /\ Observe(IF cur.kind = "line" THEN Clause("a line is linear", e.b = "y") ELSE LinearFails(cur, e))
APoint   == Is("apoint") /\ Observe(PointFails(cur, e))
Baseline == Is("baseline") /\ Observe(BaselineFails(cur, e))
Domain   == Is("domain") /\ Observe(DomainFails(cur, e))
Points   == Is("points") /\ Observe(PointsFails(cur, e))
Ends     == Is("ends") /\ Observe(EndsFails(cur, e))

Mutate ==
  /\ Is("set")
  /\ Judge(SetFails(cur, e))
  /\ Becomes(SetPoint(cur, e.i, e.p), SetPoint(ideal.c, e.i, e.p), RMax(IScale, Scale(<<Pt(e.p)>>)))
Recast ==
  /\ Is("recast")
  /\ Judge(RecastFails(cur, e))
  /\ LET r == RecastOf(ideal.c, e.to)
     IN  Becomes([kind |-> e.to, deg |-> Len(e.cp) - 1, pts |-> e.cp, knots |-> e.kn], r, IScale)

PointAlgebra == Is("pt") /\ Observe(PointFails2(e))
OutOfRange   == Is("oob") /\ Observe(OutOfRangeFails(e))

Compare == Is("eq") /\ Observe(EqFails(cur, e))
Copy == Is("copy") /\ Observe(CopyFails(cur, e))
Pair == Is("pair") /\ Observe(PairFails(cur, e))

(* a call that never came back: the driver was killed or stopped in it *)
Stuck == Is("stuck") /\ Observe({})

Operations == {"new", "eval", "evali", "split", "deriv", "dd", "bbox", "dist", "arclen", "linear", "apoint",
               "baseline", "domain", "points", "ends", "set", "recast", "pair", "eq", "copy", "pt", "oob", "stuck"}
(* no behaviour of the specification has this event here *)
Unmatched == /\ More /\ bad = {}
             /\ \/ e.op \notin Operations
                \/ cur.kind = "none" /\ e.op \notin {"new", "pt", "oob", "stuck"}
             /\ bad' = {"an event the specification does not have: " \o e.op}
             /\ UNCHANGED <<sid, l, cur, ideal>>
Finished == (~ More \/ bad # {}) /\ UNCHANGED vars

Next == \/ NewBezier \/ NewSpline \/ Eval \/ SEval \/ EvalI \/ Split \/ Derive \/ Direct \/ Box \/ Distance
        \/ Length \/ Linear \/ APoint \/ Baseline \/ Domain \/ Points \/ Ends \/ Mutate \/ Recast \/ Pair
        \/ Compare \/ Copy
        \/ PointAlgebra \/ OutOfRange \/ Stuck \/ Unmatched \/ Finished

Spec == Init /\ [][Next]_vars

(* every event conforms (a deadlock would be an event without an action)   *)
Conforms == bad = {}
(* the same, but every session that does not conform is reported, and      *)
(* TLC goes on with the others (a counterexample for each would cost a     *)
(* search through all initial states)                                      *)
Report == Conforms \/ PrintT(<<"BAD", sid, l - 1, bad>>)
=============================================================================
