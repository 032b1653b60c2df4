"""Design-level models per property, and the scale of the generated sessions."""
import random, re, struct
from fractions import Fraction

FACTOR = {p: 24.0 for p in ["C%02d" % i for i in range(1, 20)]}
FACTOR.update(C15=14.0, C16=14.0, C18=12.0, C19=12.0, C05=28.0, C08=16.0, C01=40.0, C03=36.0, C07=40.0, C13=36.0, C20=14.0)
ASSUMPTIONS = [
    "IEEE-754 binary64 arithmetic of the build machine",
    "rounding tolerance 1e-9 relative to the largest coordinate involved (plus 1e-15)",
    "TLC and the Java override of the rational operators (compared with their TLA+ definitions by RatLaws)",
    "the driver records arguments and results faithfully",
]


# unbounded proofs (TLAPS): module, and defects of which no proof may succeed (tried by the thorough tier)
_SPAN = ("SpanProof", [("high = N /\\ res", "high = N + 1 /\\ res"), ("low' = Mid + 1 /\\ UNCHANGED high", "low' = Mid /\\ UNCHANGED high"),
                       ("first = D /\\ count = N + 1 - D", "first = 0 /\\ count = N + 1"), ("count' = count - (count \\div 2 + 1)", "count' = count - (count \\div 2)")])
_BOOR = ("BoorProof", [("A(r, j, d[j - 1], d[j])]", "A(r, j, d[j], d[j - 1])]"), ("~(j >= r)", "~(j > r)")])
_CAST = ("CasteljauProof", [("a' = [a EXCEPT ![j] = L(a[j], a[j + 1])]", "a' = [a EXCEPT ![j + 1] = L(a[j], a[j + 1])]"),
                            ("![N - i] = a[N - i]]", "![N - i] = a[N - 1]]"), ("~(j < N - i)", "~(j < N - i - 1)")])
_SEARCH = ("SearchProof", [("IF t > One THEN One ELSE t", "t"), ("~(i <= Steps)", "~(i < Steps)"), ("~(i < Steps)", "i < Steps"),
                           ("IF G(Visit(i)) < dmin THEN", "IF G(Visit(i)) > dmin THEN")])
PROOFS = dict(C05=[_SEARCH], C01=[_CAST], C02=[_CAST], C10=[_SPAN], C11=[_SPAN, _BOOR])


def tla(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v)
    if isinstance(v, (set, frozenset, list)): return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return '"' + v + '"'


def model(name, module, const=None, inv=(), prop=(), expect="pass", deadlock=False, workers=2, heap="3g", most=10 ** 9):
    return dict(name=name, module=module, const=const or {}, inv=list(inv), prop=list(prop), expect=expect,
                deadlock=deadlock, workers=workers, heap=heap, most=most)


def session(kind, n, dim, ops, coords=(-1, 0, 2), degree=0, gap=1, laws=True, most=1500):
    return model(f"Session_{kind}{n}_{degree}_d{dim}_o{ops}", "Session",
                 dict(Kind=kind, N=n, Degree=degree, Axn=dim, Coords={x + 1 for x in coords}, MaxGap=gap, MaxOps=ops, CheckLaws=laws),
                 ["LawsHold", "ConstructorAccepts", "Emit", "EmitStuck"], most=most)


SPLINES = [(2, 1), (3, 1), (3, 2), (4, 2), (4, 3), (5, 3)]     # (control points, degree)


def sessions(prop, tier):
    deep = tier == "thorough"
    most = 20000 if deep else 400
    r = []
    def bez(kind, n, dim, ops, coords=(-1, 0, 2)):
        r.append(session(kind, n, dim, ops, coords, most=most))
    if prop in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C15", "C17", "C18", "C19", "C20"):
        bez("quad", 3, 1, 2 if deep else 1)
        bez("cubic", 4, 1, 2 if deep else 1)
        bez("quad", 3, 2, 1 if deep else 0, (0, 1, 2) if deep else (0, 1))
        bez("cubic", 4, 2, 1 if deep else 0, (0, 1))
    if prop in ("C01", "C02", "C03", "C05", "C07", "C17", "C18", "C19", "C20"):
        bez("bez", 3, 1, 3 if deep else 2)
        bez("bez", 5, 1, 1, (0, 2))
    if prop in ("C01", "C02", "C03", "C04", "C06", "C15", "C17", "C19", "C20"):
        bez("line", 2, 1, 3 if deep else 2, (-1, 0, 1, 2))
        bez("line", 2, 2, 1, (-1, 0, 2))
    if prop == "C16":
        bez("quad", 3, 2, 1, (0, 1))
        bez("cubic", 4, 2, 0, (0, 1))
        bez("line", 2, 3, 0, (0, 1))
        bez("bez", 3, 2, 1, (0, 1))
    if prop in ("C10", "C11", "C12", "C13", "C16", "C17", "C18", "C19", "C20"):
        for c, d in SPLINES + ([(5, 2), (5, 4), (6, 3)] if deep else []):
            r.append(session("spl", c, 2 if prop == "C16" else 1, 2 if deep else 1, degree=d, gap=2 if deep and c < 5 else 1, most=most))
    return r


MUTANTS = {
    "AlgoCasteljau": ["descending", "rightmost", "save late", "one level less"],
    "AlgoSearch": ["coarse stops early", "fine from zero", "fine beyond the curve", "unclamped", "minimum not kept"],
    "AlgoBox3": ["ends left out", "roots of the hull"],
    "AlgoBox4": ["ends left out", "first root only", "linear case left out", "roots of the hull", "one sign of b"],
    "AlgoConstruct": ["NaN passes", "equal points", "strictly increasing", "knots first", "infinite knots refused"],
}


WRONG = {"C01": ["Bernstein"], "C02": ["RightPart"], "C03": ["Hodograph"], "C04": ["GoesBelow", "Reaches"], "C05": ["Reaches"], "C06": ["SegSqDist"],
         "C07": ["BezSamples"], "C08": ["SegSqDist"], "C11": ["Span"], "C12": ["BasisDeriv", "DerivPoints"], "C13": ["Span"], "C19": ["Elevate"]}


def wrong(prop):
    """a wrong definition in place of a right one: the laws must not hold"""
    r = []
    for op in WRONG.get(prop, []):
        m = session("spl", 4, 1, 0, degree=2) if prop in ("C11", "C12", "C13") else session("quad", 3, 2, 0, (0, 1)) if prop not in ("C06", "C08") else session("line", 2, 2, 0)
        r.append(dict(m, name="Wrong" + op, module="SessionWrong", inv=["LawsHold"], expect="fail", override={op: "Wrong" + op}))
    return r


def algo(module, inv, variants, prop=("Terminates",), most=10 ** 9, name="", **const):
    """the transcribed algorithm, which must satisfy inv, and defective variants, which must not"""
    r = [model(module + name, module, dict(const, Variant="code"), inv, prop, most=most)]
    for v in variants:
        r.append(model(module + name + "_" + v.replace(" ", "_"), module, dict(const, Variant=v), [x for x in inv if x != "Emit"], expect="fail"))
    return r


def algorithms(prop, tier):
    deep = tier == "thorough"
    r = []
    if prop in ("C01", "C02"):
        inv = ["LevelInvariant", "EvalRight"] + (["LeftRight", "RightRight"] if prop == "C02" else [])
        for n in range(1, 6 if deep else 5):
            r += algo("AlgoCasteljau", inv, (["descending"] if prop == "C01" else MUTANTS["AlgoCasteljau"]) if n == 3 else [],
                      name=str(n), N=n, Coords={0, 1, 3} if n < 4 or deep else {0, 2})
    if prop in ("C10", "C11", "C12"):
        inv = {"C10": ["OnDomain", "NoUnderflow", "DomainKept"], "C11": ["CoxDeBoor", "NoUnderflow"], "C12": ["Slope", "DomainKept", "CoxDeBoor"]}[prop]
        var = {"C10": ["span from zero", "early exit of the search"],
               "C11": ["end for every kind", "copy D points"], "C12": ["copy D points"]}[prop]
        for i, (c, d) in enumerate(SPLINES + ([(5, 2), (6, 3), (5, 4)] if deep else [])):
            r += algo("AlgoSpline", inv, var if (c, d) == (4, 2) else [], name=f"{c}{d}", C=c, D=d, MaxGap=2 if deep and c < 5 else 1,
                      Derivs={"C10": 1, "C11": 0, "C12": d if deep else min(d, 2)}[prop])
    if prop == "C05":
        inv = ["OnCurve", "NotBelow", "CoarseBest", "FineBest", "NearSegment"]
        for n, steps in [(2, 4), (3, 4), (4, 4)] + ([(3, 8), (4, 8), (5, 4)] if deep else []):
            r += algo("AlgoSearch", inv, MUTANTS["AlgoSearch"] if n == 3 and steps == 4 else [], name=f"{n}{steps}", N=n, Steps=steps, Coords={0, 1, 3} if n < 4 else {0, 2})
    if prop == "C09":
        r += algo("AlgoConstruct", ["Accepts", "Names", "Emit"], MUTANTS["AlgoConstruct"], most=10 ** 6 if deep else 6000,
                  MaxKnots=6 if deep else 5, Cs={0, 1, 2, 3}, Ds={0, 1, 2}, Values={"0", "1", "inf", "-inf", "nan"} if deep else {"0", "1", "inf", "nan"})
    formulas = {"C01": ("EvalFormulas", ["cubic axis"]), "C02": ("SplitFormulas", ["cubic split"]), "C04": ("BoxFormulas", ["box coefficient"])}
    if prop in formulas: r += algo("Formulas", [formulas[prop][0]], formulas[prop][1], ())
    if prop == "C03":
        r += algo("Formulas", ["DerivativeFormulas", "DirectFormulas"], ["cubic dd", "quadratic dd", "quadratic derivative", "generic derivative"], ())
    if prop == "C04":
        for n in (2, 3, 4):
            r += algo("AlgoBox", ["Bounds"], MUTANTS.get(f"AlgoBox{n}", []), name=str(n), N=n, Coords=set(range(9 if deep else 6)) if n == 4 else set(range(12)))
    if prop in ("C06", "C08"):
        inv = ["LineRight"] if prop == "C06" else ["LinearRight", "CurveFlat", "PointRight"]
        for n, ax, mx in ([(2, 2, 6 if deep else 4), (2, 3, 2)] if prop == "C06" else [(3, 2, 5 if deep else 3), (4, 2, 2 if deep else 1)]):
            var = {2: ["infinite line", "no clamp at the start"], 3: ["closed curves too"], 4: ["one control point", "end not compared"]}[n] if ax == 2 else []
            r += algo("AlgoFlat", inv, var, (), name=f"{n}{ax}", N=n, Axn=ax, Top=mx)
    if prop in ("C07", "C13"):
        r += algo("AlgoLength", ["InsideDomain", "Polyline", "Connected"], ["one more step", "starts at one"] +
                  (["unit domain", "end not clamped and rounded up"] if prop == "C13" else []), MaxSteps=200 if deep else 40)
    if prop in ("C01", "C14"):
        r.append(model("RatLaws", "RatLaws", dict(N=12 if deep else 6, D=8 if deep else 5), ["Laws"], most=0))
    if prop == "C14":
        for n in (1, 2, 3):
            r += algo("PointSpace", ["Result", "VectorSpace", "Emit"], ["last coordinate left out", "subtraction adds", "equality of the first",
                      "default not zero"] if n == 2 else [], most=10 ** 6 if deep else 3000, name=str(n), Axn=n, Max=(4 if n < 3 else 2) if deep else (3 if n == 1 else 2 if n == 2 else 1), MaxOps=2 if n < 3 else 1)
    return r


def for_property(prop, tier):
    return sessions(prop, tier) + algorithms(prop, tier) + wrong(prop)


def number(tok):
    f = float(tok) if tok in ("nan", "inf", "-inf") else float(Fraction(tok))
    return struct.pack(">d", f).hex()


def programs(txt, m, seed):
    """the programs that a model printed: all of them, or a sample"""
    ps = sorted({x.group(1) for x in re.finditer(r'^"PROG (.*)"$', txt, re.M)})
    if len(ps) > m["most"]: ps = random.Random(f"{seed}/{m['name']}").sample(ps, m["most"])
    def line(p):
        w = p.split()
        k = 2 if w[0] == "pt" else 0          # "f64" is a type there
        return " ".join(w[:k] + [number(t[1:]) if re.match(r"f(-?\d|nan$|-?inf$)", t) else t for t in w[k:]])
    return [line(p) for p in ps]
