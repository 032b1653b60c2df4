#!/usr/bin/env python3
"""Session programs for the driver, one generator per property.

A program line is "sid ptype op args op args ..."; floats are 16 hexadecimal digits.
All randomness comes from the seed.  The generators decide nothing about correctness:
they only choose inputs, biased to the boundaries each property names.
"""
import math, os, random, struct, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "harness"))
from gen_families import fam

DIM = {"pn12": 12, "pn6": 6, "pn8": 8, "u6": 6, "pn1": 1, "pn2": 2, "pn3": 3, "pn4": 4, "pn5": 5, "ps2": 2, "u2": 2, "u3": 3, "v2": 2, "a3": 3}
BEZ = {p: [n for n in b if n < 40] for p, _, b, _ in fam}
SPL = {p: sorted(x for x in set(s) if x[1] < 100) for p, _, _, s in fam}
HUGEBEZ = {p: [n for n in b if n >= 40] for p, _, b, _ in fam}
HUGESPL = {p: sorted(x for x in set(s) if x[1] >= 100) for p, _, _, s in fam}
BUILTIN = ["pn1", "pn2", "pn3", "pn4", "pn5", "pn6", "pn8", "pn12"]
FOREIGN = ["u2", "u3", "v2", "ps2", "u6"]
NPTS = {"line": 2, "quad": 3, "cubic": 4}


def can_deriv(pty, kind, n):
    return n >= 2 and (kind != "bez" or n - 1 in BEZ[pty])

INF, NAN = float("inf"), float("nan")


def fx(x):
    return struct.pack(">d", float(x)).hex()


def fl(xs):
    return " ".join(fx(x) for x in xs)


def pl(ps):
    return " ".join(fl(p) for p in ps)


def g_small(r):
    return 10.0 ** -r.uniform(1, 12)


class Gen:
    def __init__(self, seed, tag=""):
        self.r = random.Random(f"{seed}/{tag}")
        self.lines = []

    # ------------------------------------------------------------ sessions
    def session(self, pty, ops):
        self.lines.append(f"s{len(self.lines)} {pty} " + " ".join(ops))

    # -------------------------------------------------------------- numbers
    def coord(self, style):
        r = self.r
        if style == "int":
            return float(r.randint(-9, 9))
        if style == "dyadic":
            return r.randint(-64, 64) / 8.0
        if style == "unit":
            return r.random()
        if style == "wide":
            return r.choice([-1, 1]) * 10.0 ** r.uniform(-6, 6)
        if style == "big":
            return r.uniform(-1e6, 1e6)
        if style == "tiny":
            return r.uniform(-1e-4, 1e-4)
        return r.uniform(-10, 10)

    def point(self, dim, style):
        return [self.coord(style) for _ in range(dim)]

    def lerp(self, a, b, t):
        return [x + (y - x) * t for x, y in zip(a, b)]

    def poly(self, n, dim, exactish=False):
        """n points of one of many shapes"""
        r = self.r
        style = r.choice(["int", "dyadic"] if exactish else
                         ["int", "dyadic", "unit", "wide", "big", "tiny", "real", "real", "real"])
        p = [self.point(dim, style) for _ in range(n)]
        k = r.randrange(20)
        if k == 0:                                    # all coincident
            p = [list(p[0]) for _ in range(n)]
        elif k == 1 and n > 1:                        # two coincide
            i, j = r.randrange(n), r.randrange(n)
            p[i] = list(p[j])
        elif k == 2 and n > 1:                        # closed
            p[-1] = list(p[0])
        elif k == 3 and n > 1:                        # collinear, inner points beyond the ends too
            a, b = p[0], p[-1]
            p = [a] + [self.lerp(a, b, r.choice([-2, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2])) for _ in range(n - 2)] + [b]
        elif k == 4 and n > 1:                        # evenly spaced on a line: linear parametrisation
            a, b = p[0], p[-1]
            p = [self.lerp(a, b, i / (n - 1)) for i in range(n)]
        elif k == 5:                                  # one axis constant
            d = r.randrange(dim)
            for q in p:
                q[d] = p[0][d]
        elif k == 6:                                  # one point far away
            i = r.randrange(n)
            p[i] = [x * 1000 if abs(x) < 100 else x for x in p[i]]
        elif k == 7 and n >= 3:                       # symmetric
            for i in range(n // 2):
                p[n - 1 - i] = [-p[i][0]] + p[i][1:]
        elif k == 8 and n >= 3:                       # degree-elevated from one point fewer
            q = p[:-1]
            p = self.elevate(q)
        elif k == 9 and n >= 4:                       # twice elevated
            p = self.elevate(self.elevate(p[:-2]))
        elif k == 10:                                 # monotone in every axis
            for d in range(dim):
                c = sorted(q[d] for q in p)
                for q, x in zip(p, c):
                    q[d] = x
        elif k == 11:                                 # the origin and unit vectors
            p = [[r.choice([0.0, 0.0, 1.0, -1.0]) for _ in range(dim)] for _ in range(n)]
        elif k == 12 and n > 2:                       # neighbours coincide, or nearly
            i = r.randrange(n - 1)
            for j in range(i + 1, min(n, i + 1 + r.randint(1, max(1, n // 2)))): p[j] = list(p[i])
            if r.random() < .4:
                e = self.small(3, 14)
                p[i + 1] = [x + r.uniform(-e, e) * max(1.0, abs(x)) for x in p[i]]
        elif k == 13 and n > 2:                       # nearly straight
            a, b = p[0], p[-1]
            e = self.small(0, 9)
            p = [self.lerp(a, b, i / (n - 1) if r.random() < .7 else r.random()) for i in range(n)]
            p[0], p[-1] = list(a), list(b)
            for i in range(1, n - 1): p[i] = [x + r.uniform(-e, e) * max(1e-3, abs(x)) for x in p[i]]
        elif k == 14 and n > 1:                       # small curve, possibly far from the origin
            e = self.small(0, 9)
            p = [[p[0][d] + e * (q[d] - p[0][d]) for d in range(dim)] for q in p]
        elif k == 15:                                 # nearly closed
            e = self.small(3, 14)
            p[-1] = [x + r.uniform(-e, e) * max(1.0, abs(x)) for x in p[0]]
        k = r.random()
        if k < .05:                                   # a small curve at the origin
            s = 2.0 ** -r.randint(6, 30)
            p = [[x * s for x in q] for q in p]
        elif k < .07:                                 # along the diagonal
            p = [[q[0]] * dim for q in p]
        elif k < .10:                                 # along one axis
            d, c = r.randrange(dim), r.choice([0.0, 0.0, 1.0, p[0][0]])
            p = [[q[i] if i == d else c for i in range(dim)] for q in p]
        elif k < .12:                                 # the axes are copies or mirror images of one another
            s = [r.choice([1, -1]) for _ in range(dim)]
            p = [[q[0] * x for x in s] for q in p]
        elif k < .14:                                 # symmetric about the origin
            for i in range((n + 1) // 2): p[n - 1 - i] = [-x for x in p[i]] if 2 * i != n - 1 else [0.0] * dim
        elif k < .17 and n > 1:                       # the chord, or a leg, is (almost) of unit length
            i = r.choice([n - 1, r.randint(1, n - 1)])
            l = math.dist(p[0], p[i])
            if l > 1e-3:
                s = (1 + r.choice([0, 1, -1]) * g_small(r)) / l
                p = [[x * s for x in q] for q in p]
        if not exactish and r.random() < .15:         # nearly one of those shapes
            e = self.small(1.5, 9)
            who = r.choice([range(n), range(n), [r.randrange(n)], [0], [n - 1]])
            axes = r.choice([range(dim), [r.randrange(dim)]])
            m = max(abs(x) for q in p for x in q)
            for i in who:
                for d in axes: p[i][d] += r.uniform(-e, e) * m
        if r.random() < .1:                           # zeros of both signs
            z = r.choice([-0.0, 0.0])
            for q in p:
                for d in range(dim):
                    if q[d] == 0 or r.random() < .3: q[d] = r.choice([z, 0.0, -0.0])
        return [[min(1e6, max(-1e6, x)) if x else x for x in q] for q in p]

    def elevate(self, p):
        n = len(p)
        return [p[0]] + [[(p[i - 1][d] * i + p[i][d] * (n - i)) / n for d in range(len(p[0]))] for i in range(1, n)] + [p[-1]]

    def t01(self):
        r = self.r
        k = r.randrange(16)
        if k == 0: return 0.0
        if k == 1: return 1.0
        if k == 2: return 0.5
        if k == 3: return r.choice([0.25, 0.75, 0.125, 0.875])
        if k == 4: return r.choice([1 / 3, 2 / 3, 0.1, 0.2, 0.3, 0.7, 0.9])
        if k == 5: return r.randrange(65) / 64
        if k == 6: return r.choice([self.small(1, 16), self.small(1, 6), 1e-300, 5e-324])
        if k == 7: return 1 - self.small(1, 17)
        if k == 8: return 1 - self.small(1, 5)
        if k == 9: return 0.5 + r.choice([1, -1]) * self.small(1, 16)
        if k == 10:                                  # next to a simple fraction
            return min(1.0, max(0.0, r.choice([0.25, 0.75, 1 / 3, 2 / 3, 0.1, 0.9]) + r.choice([1, -1]) * self.small(2, 16)))
        return r.random()

    def small(self, a, b):
        """log-uniform between 10^-b and 10^-a"""
        return 10.0 ** -self.r.uniform(a, b)

    def tgrid(self, n):
        """0, 1, 1/2 and n others"""
        return [0.0, 1.0, 0.5] + [self.t01() for _ in range(n)]

    # --------------------------------------------------------------- curves
    def new(self, kind, pts):
        return f"new {kind} {len(pts)} {pl(pts)}"

    def new_spl(self, knots, pts, d):
        return f"new spl {len(knots)} {len(pts)} {d} {fl(knots)} {pl(pts)}"

    def kinds(self, pty, bezmin=1, line=True):
        ks = [("line", 2)] if line else []
        ks += [("quad", 3), ("cubic", 4)]
        ks += [("bez", n) for n in BEZ[pty] if n >= bezmin]
        return ks

    # ---------------------------------------------------------------- knots
    def knots(self, C, D, style=None):
        """a non-decreasing knot vector of C+D+1 finite knots"""
        r = self.r
        K = C + D + 1
        style = style or r.choice(["uniform", "clamped", "start", "end", "random", "repeat", "mixed", "mixed", "mixed"])
        def gaps(n, zero=0.0):
            unit = r.choice([1.0, 1.0, 0.5, 0.1, 3.0, 1 / 3, 100.0, 1e-3])
            if r.random() < .2:                        # gaps of very different widths
                return [0.0 if r.random() < zero else r.choice([1.0, 1.0, 1.1e-6, 3e-6, 1e-5, 1e-4, 1e-3, 0.1, 100.0]) for _ in range(n)]
            return [0.0 if r.random() < zero else unit * r.choice([1, 1, 1, 2, 0.5, r.uniform(0.2, 5)]) for _ in range(n)]
        start = r.choice([0.0, 0.0, 0.0, 1.0, -1.0, -2.5, 10.0, 0.1, r.uniform(-50, 50), r.uniform(-50, 50), r.choice([-1, 1]) * 10.0 ** r.uniform(1, 5.95)])
        def build(g):
            k = [start]
            for x in g:
                k.append(k[-1] + x)
            if r.random() < .15:                       # zeros of both signs (they are equal)
                i = r.randrange(K)
                k = [x - k[i] for x in k]
                k = [r.choice([0.0, -0.0]) if x == 0 else x for x in k]
            if r.random() < .08:                       # nearly uniform, or whatever the vector was
                e, ds = self.small(1, 7), sorted(set(k))
                to = {x: x + e * r.uniform(-.4, .4) * min([y - x for y in ds[i + 1:i + 2]] + [x - y for y in ds[:i][-1:]] or [0]) for i, x in enumerate(ds)}
                n = [to[x] for x in k]
                if all(a == b or b - a >= 1e-6 for a, b in zip(n, n[1:])): k = n
            lo, hi, what = k[D], k[C], r.random()
            if what < .22 and lo < hi:                 # the domain is [0, 1], [-1, 1], or has zero in its middle
                s, o = (hi - lo, 0.0) if what < .12 else ((hi - lo) / 2, -1.0) if what < .16 else (1.0, -(hi - lo) / 2)
                n = [(x - lo) / s + o for x in k]
                n = [round(x) * 1.0 if abs(x - round(x)) < 1e-12 else x for x in n] if what < .16 else n
                if all(a == b or b - a >= 1e-6 for a, b in zip(n, n[1:])) and max(map(abs, n)) <= 1e6: k = n
            return k
        if style == "uniform":
            return build([1.0] * (K - 1))
        if style == "random":
            return build(gaps(K - 1))
        if style == "repeat":
            return build(gaps(K - 1, 0.4))
        if style == "equal":
            return [start] * K
        if style == "overlap":
            return build(gaps(K - 1, 0.75))
        g = gaps(K - 1, 0.0)
        cs = style in ("clamped", "start") or (style == "mixed" and r.random() < 0.5)
        ce = style in ("clamped", "end") or (style == "mixed" and r.random() < 0.5)
        if style == "mixed":
            # groups of repeated interior knots, at most D each
            i = 0
            while i < K - 1:
                m = r.randint(1, max(1, D))
                for j in range(i, min(K - 1, i + m - 1)):
                    g[j] = 0.0
                i += m
        if cs:
            for j in range(D):
                g[j] = 0.0
            if D < len(g) and g[D] == 0.0 and C > D: g[D] = 1.0
        if ce:
            for j in range(K - 1 - D, K - 1):
                g[j] = 0.0
            if K - 2 - D >= 0 and g[K - 2 - D] == 0.0: g[K - 2 - D] = 1.0
        return build(g)

    def proper(self, u, C, D):
        """the condition of C11 (the specification decides; this only steers generation)"""
        if not u[D] < u[C]: return False
        cs = all(x == u[0] for x in u[:D + 1]); ce = all(x == u[-1] for x in u[len(u) - D - 1:])
        for x in u:
            m = u.count(x)
            lim = D + 1 if D == 0 or (cs and x == u[0]) or (ce and x == u[-1]) else D
            if m > lim: return False
        return all(b == a or b - a >= 1e-6 for a, b in zip(u, u[1:]))

    def proper_knots(self, C, D):
        for _ in range(200):
            u = self.knots(C, D)
            if self.proper(u, C, D): return u
        return [float(i) for i in range(C + D + 1)]

    def spl_ts(self, u, C, D, n=3, outside=True):
        r = self.r
        lo, hi = u[D], u[C]
        ts = []
        dist = sorted(set(u))
        ts += dist
        ts += [(a + b) / 2 for a, b in zip(dist, dist[1:])]
        ts += [math.nextafter(x, s) for x in (lo, hi) for s in (-INF, INF)]
        ts += [lo + (hi - lo) * r.random() for _ in range(n)]
        ts += [x for x in (0.0, 1.0, 0.5) if lo < x < hi] + [lo + (hi - lo) * r.randint(1, 63) / 64]
        for x in (hi, lo, r.choice(dist), r.choice(dist)):      # next to a knot
            i = dist.index(x)
            if i > 0: ts.append(x - (x - dist[i - 1]) * self.small(0, 14))
            if i + 1 < len(dist): ts.append(x + (dist[i + 1] - x) * self.small(0, 14))
        if outside:
            ts += [NAN, INF, -INF, lo - 1, hi + 1, r.choice([1e300, -1e300, 0.0, 5e-324])]
        else:
            ts = [t for t in ts if lo <= t <= hi]
        return ts


def huge_bez(g, derivable=False):
    """curves of more points than 64, 128, 256"""
    for n in HUGEBEZ["pn1"]:
        if not derivable or n - 1 in HUGEBEZ["pn1"]:
            p = g.poly(n, 1) if g.r.random() < .5 else [[g.coord("real")] for _ in range(n)]
            yield n, p, g.new("bez", p)


def huge_spl(g, mind=0):
    for d, c in HUGESPL["pn1"]:
        if d >= mind:
            u = g.proper_knots(c, d)
            p = [[g.coord(g.r.choice(["int", "real"]))] for _ in range(c)]
            ts = g.spl_ts(u, c, d, 3, False)
            yield d, c, u, p, g.new_spl(u, p, d), g.r.sample(ts, min(12, len(ts))) + [u[d], u[c], math.nextafter(u[c], -INF), (u[c - 1] + u[c]) / 2]


# ============================================================================
def c01(g, scale):
    for pty in BUILTIN:
        for kind, n in g.kinds(pty):
            for _ in range(scale(4 if pty != "pn2" else 8) if n <= 9 else scale(3)):
                ts = g.tgrid(3)
                g.session(pty, [g.new(kind, g.poly(n, DIM[pty]))] + [f"eval {fx(t)}" for t in ts])
    for n, p, new in huge_bez(g):
        g.session("pn1", [new] + [f"eval {fx(t)}" for t in g.tgrid(3)])




def split_op(g, t, keep, k=3):
    s = [0.0, 1.0] + [g.t01() for _ in range(k)]
    return f"split {fx(t)} {keep} {len(s)} {fl(s)}"


def c02(g, scale):
    for pty in BUILTIN:
        for kind, n in g.kinds(pty):
            for _ in range(scale(3 if pty != "pn2" else 6)):
                ops = [g.new(kind, g.poly(n, DIM[pty]))]
                ops += [split_op(g, t, "n") for t in [0.0, 1.0, 0.5, g.t01(), g.r.random()]]
                for _ in range(g.r.randint(0, 3)):
                    ops.append(split_op(g, g.t01(), g.r.choice("lr"), 2))
                ops.append(split_op(g, g.r.random(), "n", 2))
                g.session(pty, ops)
    for n, p, new in huge_bez(g):
        g.session("pn1", [new] + [split_op(g, t, "n", 1) for t in (g.r.random(), g.t01())])




def deriv_op(g, keep, ts):
    return f"deriv {keep} {len(ts)} {fl(ts)}"


def c03(g, scale):
    for pty in BUILTIN:
        for kind, n in g.kinds(pty, bezmin=2):
            if not can_deriv(pty, kind, n): continue
            for _ in range(scale(4 if pty != "pn2" else 8)):
                ops = [g.new(kind, g.poly(n, DIM[pty])), deriv_op(g, "n", g.tgrid(3))]
                if kind in ("quad", "cubic"):
                    ops += [f"dd {fx(t)}" for t in g.tgrid(3)]
                if kind == "bez":
                    m = n
                    for _ in range(g.r.randint(0, min(n - 2, 3))):
                        if not can_deriv(pty, kind, m): break
                        ops.append(deriv_op(g, "y", g.tgrid(1)))
                        m -= 1
                elif kind == "cubic":
                    ops += [deriv_op(g, "y", g.tgrid(2))] + [f"dd {fx(t)}" for t in g.tgrid(1)] + [deriv_op(g, "y", g.tgrid(1)), deriv_op(g, "n", [0.5])]
                elif kind == "quad":
                    ops += [deriv_op(g, "y", g.tgrid(1)), deriv_op(g, "n", [0.5])]
                g.session(pty, ops)
    for n, p, new in huge_bez(g, True):
        g.session("pn1", [new, deriv_op(g, "n", g.tgrid(1))])




def box_poly(g, n, dim):
    """per axis: a polynomial whose extrema are chosen"""
    r = g.r
    cols = []
    for _ in range(dim):
        k = r.randrange(15)
        a = g.coord(r.choice(["int", "real", "unit", "dyadic", "int", "real", "wide"]))
        w = r.choice([1.0, 10.0, 0.5, 1000.0, r.uniform(0.1, 5), g.small(-3, 6)])
        if n == 2:
            c = [a, a + w * r.choice([-1, 0, 1])]
        elif k == 0:
            c = [a] * n
        elif k == 1:                        # linear, elevated: derivative degenerates to a constant
            e = [[a], [a + w]]
            while len(e) < n: e = g.elevate(e)
            c = [x[0] for x in e]
        elif k == 2 and n == 4:             # quadratic, elevated (nearly degenerate cubic)
            e = g.elevate([[a], [a + r.choice([-1, 1, 3]) * w], [a + r.uniform(-1, 1) * w]])
            c = [x[0] for x in e]
        elif k == 3 and n == 4:             # two interior extrema
            c = [a, a + w * r.uniform(1, 3), a - w * r.uniform(1, 3), a + w * r.uniform(-.5, .5)]
        elif k == 4:                        # inner points beyond the ends on one side
            c = [a] + [a + w * r.uniform(1, 3) for _ in range(n - 2)] + [a + w * r.random()]
        elif k == 5:                        # extremum at the start / the end
            c = [a, a] + [a + w * r.uniform(0, 2) for _ in range(n - 2)]
            if r.random() < .5: c.reverse()
        elif k == 6 and n == 4:             # double root of the derivative
            c = [a, a + w, a + w, a + 2 * w] if r.random() < .3 else [a, a + w / 3, a + w / 3, a + w / 3 * r.choice([1, 2, 0])]
        elif k == 7 and n == 4:             # extremum close to an end
            e = r.choice([1e-3, 1e-6, 1e-9, g.small(0, 5), g.small(0, 5)])
            c = [a, a - w * e, a + w, a + 2 * w]
            if r.random() < .5: c.reverse()
        elif k == 8 and n == 4:             # small cubic coefficient
            e = g.elevate([[a], [a + 2 * w], [a - w / 2]])
            c = [x[0] for x in e]
            c[r.randrange(4)] += w * r.choice([-1, 1]) * 10.0 ** r.uniform(-14, -3)
        elif k == 9 and n == 3:             # small quadratic coefficient
            c = [a, a + w, a + 2 * w + w * r.choice([-1, 1]) * 10.0 ** r.uniform(-14, -2)]
        elif k == 11:                       # stationary at chosen parameters, inside or a little outside
            q1 = r.choice([g.t01(), r.random(), -g.small(0, 5), 1 + g.small(0, 5)])
            if n == 3:                      # derivative proportional to (t - q1)
                c = [a, a - q1 * w / 2, a - q1 * w + w / 2]
            else:                           # (t - q1)(t - q2): Bernstein coefficients by blossoming
                q2 = r.choice([q1 + r.choice([1, -1]) * g.small(0, 6), g.t01(), r.random(), 1 + g.small(0, 5)])
                d = [q1 * q2, ((0 - q1) * (1 - q2) + (1 - q1) * (0 - q2)) / 2, (1 - q1) * (1 - q2)]
                c = [a]
                for x in d: c.append(c[-1] + w * x)
                if r.random() < .5: c = [2 * a - x for x in c]
        elif k == 12 and n == 4:            # derivative close to, or just without, a double root
            q1 = r.choice([r.random(), 0.5])
            d = [q1 * q1, -q1 * (1 - q1), (1 - q1) ** 2]
            e = r.choice([1, -1]) * g.small(1, 15)
            c = [a]
            for x in d: c.append(c[-1] + w * (x + e))
        elif k == 13:                       # nearly straight
            c = [a + w * i / (n - 1) for i in range(n)]
            for i in range(1, n - 1): c[i] += w * r.choice([1, -1]) * g.small(0, 8)
        elif k == 10:                       # monotone
            c = sorted(a + w * r.random() for _ in range(n))
            if r.random() < .5: c.reverse()
        else:
            c = [a + w * r.uniform(-1, 1) for _ in range(n)]
        cols.append(c)
    return [list(x) for x in zip(*cols)]


def c04(g, scale):
    for pty in BUILTIN:
        for kind, n in [("line", 2), ("quad", 3), ("cubic", 4)]:
            for i in range(scale({"line": 10, "quad": 50, "cubic": 90}[kind] * (1 if pty != "pn2" else 2))):
                p = box_poly(g, n, DIM[pty]) if i % 3 else g.poly(n, DIM[pty])
                g.session(pty, [g.new(kind, p), "bbox"])


def bez_at(p, t):
    p = [list(q) for q in p]
    while len(p) > 1:
        p = [[a + (b - a) * t for a, b in zip(x, y)] for x, y in zip(p, p[1:])]
    return p[0]


def query(g, p):
    """a query point for the curve of p"""
    r = g.r
    dim = len(p[0])
    k = r.randrange(12)
    s = max(1e-3, max(abs(x) for q in p for x in q))
    off = lambda m: [x + r.uniform(-m, m) * s for x in base]
    if k == 0: return list(r.choice([p[0], p[-1]]))                 # an end point
    if k == 1: return bez_at(p, r.choice([r.random(), r.randrange(65) / 64]))   # on the curve
    if k in (2, 3):                                                 # on the extension beyond an end
        e = r.choice([1, -1]) * r.choice([1e-4, 1e-3, 5e-3, 1 / 128, 0.02, 0.1, 0.5, g.small(0, 6)])
        return bez_at(p, 1 + e if e > 0 else e)
    if k in (4, 5):                                                 # next to an end
        base = r.choice([p[0], p[-1]])
        return off(r.choice([1e-3, 1e-2, 0.1, 1, g.small(0, 12)]))
    if k == 6:                                                      # between two coarse samples
        return bez_at(p, (r.randrange(64) + 0.5) / 64)
    if k in (7, 8):                                                 # near the curve
        base = bez_at(p, r.random())
        return off(r.choice([1e-6, 1e-3, 1e-2, 0.1, g.small(0, 12), g.small(0, 12)]))
    if k == 9: return [r.uniform(-1, 1) * 1e3 * min(s, 1e3) for _ in range(dim)]     # far away
    if k == 10: return [0.0] * dim
    return [r.uniform(-1.5, 1.5) * s for _ in range(dim)]


def clampq(q): return [max(-1e6, min(1e6, x)) for x in q]


def c05(g, scale):
    for pty in BUILTIN:
        for kind, n in g.kinds(pty, line=False):
            for _ in range(scale((3 if pty != "pn2" else 5) * (3 if n in (3, 4) else 1)) if n <= 8 else scale(2)):
                p = g.poly(n, DIM[pty])
                if g.r.random() < 0.4: p = [g.point(DIM[pty], "real") for _ in range(n)]
                g.session(pty, [g.new(kind, p)] + [f"dist {fl(clampq(query(g, p)))}" for _ in range(3)])
    for n, p, new in huge_bez(g):
        if n <= 66: g.session("pn1", [new, f"dist {fl(clampq(query(g, p)))}"])


def c06(g, scale):
    r = g.r
    for pty in BUILTIN:
        for _ in range(scale(120)):
            p = g.poly(2, DIM[pty])
            if r.random() < .2:
                e = r.choice([1e-12, 1e-9, 1e-7, 1e-5, g.small(-1, 12)])
                p[1] = [x + r.uniform(-e, e) for x in p[0]]
            qs = []
            for _ in range(5):
                t = r.choice([0, 1, 0.5, -0.5, 1.5, -g.small(0, 16), g.small(0, 16), 1 + g.small(0, 15), 1 - g.small(0, 15), r.uniform(-1, 2), r.uniform(-1, 2), r.uniform(-50, 50)])
                base = g.lerp(p[0], p[1], t)
                s = max(1e-3, max(abs(x) for q in p for x in q))
                m = r.choice([0, 0, 1e-6, 1e-2, 1, 1, g.small(0, 12), g.small(0, 3), 10.0 ** r.uniform(0, 4)])
                qs.append(clampq([x + r.uniform(-m, m) * s for x in base]))
            qs.append(r.choice([[0.0] * DIM[pty], list(p[0]), list(p[1]), clampq(g.point(DIM[pty], r.choice(["int", "unit", "real"]))), [x / 2 + y / 2 for x, y in zip(*p)]]))
            if all(x == int(x) for q in p for x in q) and DIM[pty] > 1 and r.random() < .5:     # exactly beside an end
                b = list(r.choice(p))
                i, j = r.sample(range(DIM[pty]), 2)
                k = r.choice([1, -1, .5, 3])
                b[i] += k * (p[1][j] - p[0][j])
                b[j] -= k * (p[1][i] - p[0][i])
                qs.append(clampq(b))
            g.session(pty, [g.new("line", p)] + [f"dist {fl(q)}" for q in qs])


def c07(g, scale):
    for pty in BUILTIN:
        for kind, n in g.kinds(pty, line=False):
            for _ in range(scale((2 if pty != "pn2" else 5) * (3 if n in (3, 4) else 1)) if n < 10 else scale(2)):
                steps = [1, 2, 3, g.r.choice([4, 5, 6, 7, 8, 9, 10, 16, 31])]
                if g.r.random() < .15: steps.append(g.r.choice([49, 64, 100, 103, 128]))
                g.session(pty, [g.new(kind, g.poly(n, DIM[pty]))] + [f"arclen {k}" for k in steps])
    # many steps
    for pty in ("pn1", "pn2"):
        for kind, n in [("quad", 3), ("cubic", 4), ("bez", 2), ("bez", 3), ("bez", 4), ("bez", 6)]:
            g.session(pty, [g.new(kind, g.poly(n, DIM[pty]))] + [f"arclen {k}" for k in (g.r.choice([100, 127, 128, 255]), g.r.choice([256, 257, 500, 512, 999, 1000]), g.r.choice([1001, 1024, 1025, 1500, 2000, 4097]))])
    for n, p, new in huge_bez(g):
        g.session("pn1", [new, f"arclen {g.r.choice([1, 2, 3, 5])}"])




def tol_cases(g, p):
    """tolerances around the decisive distances of p"""
    r = g.r
    out = [0.0, r.choice([1e-9, 1e-3, 1.0, 10.0, 1e6])]
    def d(a, b): return math.dist(a, b)
    def seg(a, b, q):
        v = [y - x for x, y in zip(a, b)]
        l2 = sum(x * x for x in v)
        if l2 == 0: return d(a, q)
        t = max(0, min(1, sum((y - x) * w for x, y, w in zip(a, q, v)) / l2))
        return d(q, [x + t * w for x, w in zip(a, v)])
    far = max([seg(p[0], p[-1], q) for q in p[1:-1]])
    pair = max(d(a, b) for a in p for b in p)
    first = max(d(p[0], q) for q in p)
    for x in (far, pair, first, first / 2):
        if x > 0: out += [x * 1.001, x * 0.999, x * r.choice([0.503, 2.003, 1 + 1e-7, 1 - 1e-7])]
    for q in p[1:-1]:
        x = seg(p[0], p[-1], q)
        if x > 0: out += [x * 1.01, x * .99]
    r.shuffle(out)
    return out[:8] + [0.0]


def c08(g, scale):
    r = g.r
    for pty in BUILTIN:
        for kind, n in [("quad", 3), ("cubic", 4)]:
            for i in range(scale(60)):
                p = g.poly(n, DIM[pty])
                if i % 4 == 0:                      # nearly flat
                    a, b = p[0], p[-1]
                    e = 10.0 ** r.uniform(-6, 1)
                    p = [a] + [[x + r.uniform(-e, e) for x in g.lerp(a, b, r.uniform(-.5, 1.5))] for _ in range(n - 2)] + [b]
                if i % 4 == 1:                      # nearly a point
                    e = 10.0 ** r.uniform(-6, 1)
                    a = g.point(DIM[pty], "real")
                    p = [[x + r.uniform(-e, e) for x in a] for _ in range(n)]
                ops = [g.new(kind, p), "baseline"]
                for tol in tol_cases(g, p):
                    ops += [f"linear {fx(tol)} n", f"apoint {fx(tol)} n"]
                g.session(pty, ops)
            # exactly representable cases: the tolerance is met exactly (inclusive)
            for i in range(scale(25)):
                dim = DIM[pty]
                L = float(r.choice([1, 2, 4, 8, 16]))
                ax, ay = r.randrange(dim), r.randrange(dim)
                h = float(r.choice([0, 1, 2, 3, 0.5, 0.25]))
                def at(x, y):
                    q = [0.0] * dim
                    q[ax] += x
                    if ay != ax: q[ay] += y
                    return q
                inner = [at(L * r.choice([0, .25, .5, .75, 1]), r.choice([-1, 1, 0]) * h) for _ in range(n - 2)]
                inner[r.randrange(n - 2)] = at(L * r.choice([0, .25, .5, 1]), r.choice([-1, 1]) * h)
                p = [at(0.0, 0.0)] + inner + [at(L, 0.0)]
                ops = [g.new(kind, p), "baseline"] + [f"linear {fx(tol)} y" for tol in (h, h / 2, h * 2, 0.0, h - 2.0 ** -20 if h else 0.0)]
                g.session(pty, ops)
                # axis-aligned distances: exact squares
                p = [at(0.0, 0.0)] + [at(h * r.choice([0, 1, -1, 2, -2]), 0.0) for _ in range(n - 2)] + [at(h * r.choice([0, 1, -1, 2]), 0.0)]
                ops = [g.new(kind, p)] + [f"apoint {fx(tol)} y" for tol in (h, 0.0, 2 * h, 3 * h, 4 * h, h / 2, h - 2.0 ** -20 if h else 0.0)]
                ops += [f"linear {fx(tol)} y" for tol in (0.0, h, 2 * h, h / 2)]
                g.session(pty, ops)


def ctor(g, knots, pts, d):
    g.session("ctor", [str(len(knots)), str(len(pts)), str(d), fl(knots), pl(pts)])


def order_types(n, r, most):
    """non-decreasing sequences of n knots up to order isomorphism: all, or a sample"""
    masks = range(1 << (n - 1)) if 1 << (n - 1) <= most else [r.getrandbits(n - 1) for _ in range(most)]
    out = []
    for m in masks:
        s = [0]
        for i in range(n - 1): s.append(s[-1] + (m >> i & 1))
        out.append(s)
    return out


def few(scale, n, c):
    """how many splines of c control points: fewer of the long ones"""
    return scale(n) if c <= 13 else max(1, scale(n) // (4 if c <= 20 else 10))


def c09(g, scale):
    r = g.r
    val = [0.0, 1.0, 2.5, 1e-6, 1e6]
    # every shape: the counts decide
    for K in range(0, 12):
        for C in range(0, 6):
            for D in range(0, 5):
                for _ in range(2):
                    kn = [float(i) for i in range(K)] if r.random() < .6 else sorted(g.coord("real") for _ in range(K))
                    if r.random() < .25 and K >= 2:
                        i = r.randrange(K - 1); kn[i], kn[i + 1] = kn[i + 1] + 1, kn[i]
                    ctor(g, kn, [[g.coord("int")] for _ in range(C)], D)
    shapes = [(c, d) for c in range(1, 6) for d in range(0, 5) if c > d and c + d + 1 <= 11]
    for C, D in shapes:
        K = C + D + 1
        # all order types, when there are few
        types = order_types(K, r, 1 << 12)
        r.shuffle(types)
        for ot in types[:scale(12)]:
            step = r.choice([1.0, 0.25, 1e-3, 1e-12, 100.0])
            ctor(g, [x * step for x in ot], [[g.coord("real")] for _ in range(C)], D)
        # a descent at one position
        for i in range(K - 1):
            for e in (1.0, r.choice([1e-3, 1e-9, 2.0 ** -60])):
                kn = [float(j) for j in range(K)]
                if r.random() < .5: kn = [x * r.random() ** 3 for x in [1.0] * K]; kn.sort()
                kn[i + 1] = kn[i] - e
                if kn[i + 1] == kn[i]: kn[i + 1] = math.nextafter(kn[i], -INF)
                ctor(g, kn, [[g.coord("int")] for _ in range(C)], D)
        # equal neighbours everywhere, zeros of both signs
        ctor(g, [0.0 if i % 2 else -0.0 for i in range(K)], [[0.0] for _ in range(C)], D)
        # NaN at every position
        for i in range(K):
            kn = [float(j) for j in range(K)]
            kn[i] = NAN
            ctor(g, kn, [[g.coord("int")] for _ in range(C)], D)
        # infinite knots: they compare like any other
        for _ in range(4):
            kn = [float(j) for j in range(K)]
            for i in r.sample(range(K), r.choice([1, 1, 2]) if K > 1 else 1): kn[i] = r.choice([INF, -INF])
            if r.random() < .6: kn.sort()
            if r.random() < .1: kn[r.randrange(K)] = NAN
            ctor(g, kn, [[g.coord("int")] for _ in range(C)], D)
        if K >= 2:
            kn = [float(j) for j in range(K)]
            for i in r.sample(range(K), 2): kn[i] = NAN
            ctor(g, kn, [[1.0]] * C, D)
            ctor(g, [NAN] * K, [[1.0]] * C, D)
        # a random permutation
        for _ in range(3):
            kn = [float(r.randint(0, 3)) for _ in range(K)]
            ctor(g, kn, [[g.coord("int")] for _ in range(C)], D)
    # other point types
    for _ in range(scale(3)):
        for pty in BUILTIN:
            for d, c in SPL[pty]:
                kn = g.knots(c, d)
                pts = g.poly(c, DIM[pty])
                g.session(pty, [g.new_spl(kn, pts, d), "points"])
                # one descent, large or of one unit in the last place, or NaN, at any position
                n = len(kn)
                for i in range(n - 1) if n < 20 else sorted({0, n - 2, d, c - 1, *r.sample(range(n - 1), 6)}):
                    bad = list(kn)
                    how = r.choice(["swap", "swap", "ulp", "nan", "last nan"])
                    if how == "swap": bad[i], bad[i + 1] = bad[i + 1] + 1.0, bad[i]
                    elif how == "ulp": bad[i + 1] = math.nextafter(bad[i], -INF)
                    else: bad[i if how == "nan" else i + 1] = NAN
                    g.session(pty, [g.new_spl(bad, pts, d)])
    for d, c in HUGESPL["pn1"]:
        for k in range(scale(4)):
            kn = g.knots(c, d)
            i = r.choice([d, c - 1, c + d - 1, r.randrange(c + d), r.randrange(c + d), r.randrange(c + d)])
            if k:
                if r.random() < .3: kn[i + 1] = NAN
                elif r.random() < .5: kn[i], kn[i + 1] = kn[i + 1] + 1.0, kn[i]
                else: kn[i + 1] = math.nextafter(kn[i], -INF)
            g.session("pn1", [g.new_spl(kn, [[g.coord("int")] for _ in range(c)], d)] + (["points"] if k == 0 else []))


def c10(g, scale):
    r = g.r
    for pty in ["pn1", "pn2", "pn3"]:
        for d, c in SPL[pty]:
            for _ in range(few(scale, 2 if pty != "pn2" else 3, c)):
                u = g.knots(c, d, r.choice([None, None, None, "overlap", "equal", "start", "end", "clamped", "uniform", "repeat"]))
                ops = [g.new_spl(u, g.poly(c, DIM[pty]), d), "domain"]
                ts = g.spl_ts(u, c, d)
                g.session(pty, ops + [f"eval {fx(t)}" for t in ts])
    # order types of small knot vectors, exhaustively up to K = 7 (values 0, 1, 2, ..)
    for d, c in SPL["pn1"]:
        K = c + d + 1
        types = order_types(K, r, min(1 << 12, max(64, few(scale, 64, c))))
        for ot in types:
            u = [float(x) for x in ot]
            pts = [[float(r.randint(-9, 9))] for _ in range(c)]
            ts = sorted(set(u)) + [x + 0.5 for x in sorted(set(u))] + [-0.5]
            g.session("pn1", [g.new_spl(u, pts, d), "domain"] + [f"eval {fx(t)}" for t in ts])
    for d, c, u, p, new, ts in huge_spl(g):
        u = g.knots(c, d)
        ts = g.spl_ts(u, c, d)
        g.session("pn1", [g.new_spl(u, p, d), "domain"] + [f"eval {fx(t)}" for t in r.sample(ts, min(30, len(ts))) + [u[d], u[c], math.nextafter(u[c], -INF)]])




def c11(g, scale):
    r = g.r
    for pty in BUILTIN:
        for d, c in SPL[pty]:
            for _ in range(few(scale, 2 if pty != "pn2" else 4, c)):
                u = g.proper_knots(c, d)
                g.session(pty, [g.new_spl(u, g.poly(c, DIM[pty]), d)] + [f"eval {fx(t)}" for t in g.spl_ts(u, c, d, 2, False)])
    for d, c, u, p, new, ts in huge_spl(g):
        g.session("pn1", [new] + [f"eval {fx(t)}" for t in ts])




def proper_deriv(g, u, C, D):
    return D >= 1 and g.proper(u, C, D)


def c12(g, scale):
    r = g.r
    for pty in BUILTIN:
        for d, c in SPL[pty]:
            if d < 1: continue
            for _ in range(few(scale, 2 if pty != "pn2" else 4, c)):
                u = g.proper_knots(c, d)
                ops = [g.new_spl(u, g.poly(c, DIM[pty]), d)]
                ts = g.spl_ts(u, c, d, 1)
                ops.append(deriv_op(g, "n", ts))
                v, cc, dd = list(u), c, d
                while proper_deriv(g, v, cc, dd):
                    ts = g.spl_ts(v, cc, dd, 0, False)
                    ops.append(deriv_op(g, "y", r.sample(ts, min(4, len(ts)))))
                    v, cc, dd = v[1:-1], cc - 1, dd - 1
                    ops.append("domain")
                    if g.proper(v, cc, dd) and r.random() < .5:
                        ops += [f"eval {fx(t)}" for t in r.sample(ts, min(3, len(ts)))]
                g.session(pty, ops)
    for d, c, u, p, new, ts in huge_spl(g, 1):
        g.session("pn1", [new, deriv_op(g, "n", ts)])




def c13(g, scale):
    r = g.r
    for pty in BUILTIN:
        for d, c in SPL[pty]:
            if d < 1: continue
            for _ in range(few(scale, 2 if pty != "pn2" else 3, c)):
                u = g.proper_knots(c, d)
                steps = [1, 2, r.choice([3, 4, 5]), r.choice([6, 7, 8, 9, 10, 13, 16, 25])]
                g.session(pty, [g.new_spl(u, g.poly(c, DIM[pty]), d)] + [f"arclen {n}" for n in steps])
    # many steps
    for d, c in [s for s in SPL["pn1"] if 1 <= s[0] <= 2]:
        u = g.proper_knots(c, d)
        g.session("pn1", [g.new_spl(u, g.poly(c, 1), d)] + [f"arclen {n}" for n in (r.choice([100, 127, 128, 255]), r.choice([256, 257, 500, 512, 999, 1000]), r.choice([1001, 1024, 1025, 1500, 2000, 4097]))])
    for d, c, u, p, new, ts in huge_spl(g, 1):
        g.session("pn1", [new, f"arclen {r.choice([1, 2, 3, 5, 8])}"])




def c14(g, scale):
    r = g.r
    for ty, dims in [("f64", [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 24, 32, 33, 48, 64, 65, 100]), ("f32", [0, 1, 2, 3, 4, 5, 6, 8, 16, 33]),
                     ("S", [1, 2, 3, 4, 7, 12, 24, 40]), ("i64", [0, 1, 2, 3, 4, 5, 8, 11, 32, 40]),
                     ("i32", [1, 2, 3, 4, 5, 8]), ("u8", [1, 2, 3, 4])]:
        for n in dims:
            for i in range(few(scale, 40, n)):
                if ty in ("i64", "i32"):
                    c = lambda: str(r.choice([0, 1, -1, r.randint(-1000, 1000), r.randint(-2 ** 30, 2 ** 30) if ty == "i64" else 7]))
                    a, s = [c() for _ in range(n)], c()
                    b, w = [c() for _ in range(n)], [c() for _ in range(n)]
                elif ty == "u8":
                    b = [str(r.randint(0, 9)) for _ in range(n)]
                    s = str(r.randint(0, 9))
                    a = [str(max(int(x), int(s)) + r.randint(0, 9)) for x in b]
                    w = [str(r.randint(0, 255)) for _ in range(n)]
                else:
                    st = r.choice(["int", "dyadic"]) if ty == "f32" else r.choice(["int", "dyadic", "real", "wide", "big", "tiny"])
                    c = lambda: r.choice([0.0, -0.0]) if r.random() < .1 else g.coord(st)
                    a, s = [fx(c()) for _ in range(n)], fx(c())
                    b, w = [fx(c()) for _ in range(n)], [fx(c()) for _ in range(n)]
                if n and ty in ("f64", "S") and r.random() < .15:       # some coordinates are no numbers
                    for v in r.choice([(a,), (b,), (a, b)]):
                        v[r.choice([n - 1, r.randrange(n)])] = fx(NAN)
                k = r.randrange(4)
                if k == 0: b = list(a)
                elif n and k in (1, 2):                # equal but for one coordinate, often the last
                    d = n - 1 if k == 1 else r.randrange(n)
                    keep = b[d]; b = list(a); b[d] = keep
                g.session("pt", [ty, str(n)] + a + b + [s] + w)


def c15(g, scale):
    r = g.r
    for pty in BUILTIN + ["v2", "u3"]:
        for kind, n in NPTS.items():
            for _ in range(scale(14)):
                p = g.poly(n, DIM[pty])
                def look():
                    ops = ["ends", "points", "pair inner baseline"] + [f"pair inner eval {fx(t)}" for t in g.tgrid(2)]
                    tols = [t for t in tol_cases(g, p) if t > 0] if kind != "line" else [0.0, 1.0]
                    ops += [f"pair inner linear {fx(t)}" for t in tols[:5]]
                    ops += [f"pair inner split {fx(t)} 2 {fl([0.0, g.t01()])}" for t in (g.t01(), g.r.random())]
                    return ops
                ops = [g.new("seg" + kind, p)] + look()
                for _ in range(r.randint(1, 3)):
                    t = g.t01()
                    ops += [split_op(g, t, r.choice("lrn"), 1)] + look()
                g.session(pty, ops)


def all_ops(g, pty, kind, n, p, exact="n"):
    """every observation on a Bezier curve"""
    r = g.r
    ops = [f"eval {fx(t)}" for t in g.tgrid(1)] + [split_op(g, g.t01(), "n", 1)]
    if can_deriv(pty, kind, n): ops.append(deriv_op(g, "n", g.tgrid(1)))
    if kind in ("quad", "cubic"): ops += [f"dd {fx(g.t01())}", "baseline"]
    if kind in NPTS: ops.append("bbox")
    if n <= 5: ops.append(f"dist {fl(clampq(query(g, p)))}")
    if kind != "line": ops.append(f"arclen {r.choice([1, 2, 3, 5])}")
    if kind in ("quad", "cubic"):
        for tol in tol_cases(g, p)[:3]: ops += [f"linear {fx(tol)} n", f"apoint {fx(tol)} n"]
    ops.append("points")
    return ops


def spl_ops(g, u, c, d, deriv=True):
    r = g.r
    ts = g.spl_ts(u, c, d, 1)
    ops = ["domain"] + [f"eval {fx(t)}" for t in r.sample(ts, min(7, len(ts)))] + ["points"]
    ops += [f"eval {fx(t)}" for t in (u[d], u[c])]
    if g.proper(u, c, d) and d >= 1:
        ops.append(f"arclen {r.choice([1, 2, 3, 5])}")
        if deriv: ops.append(deriv_op(g, "n", r.sample(ts, min(4, len(ts)))))
    return ops


def paired(why, op):
    """the paired form of an observation"""
    w = op.split()
    if w[0] == "split": return f"pair {why} split {w[1]} " + " ".join(w[3:])
    if w[0] == "deriv": return f"pair {why} deriv " + " ".join(w[2:])
    if w[0] in ("linear", "apoint"): return f"pair {why} {w[0]} {w[1]}"
    return f"pair {why} {op}"


def c16(g, scale):
    r = g.r
    for pty in FOREIGN + ["a3"]:
        for kind, n in g.kinds(pty):
            for _ in range(scale(8 if n in (2, 3, 4) else 4)):
                p = g.poly(n, DIM[pty])
                ops = [paired("builtin", o) for o in all_ops(g, pty, kind, n, p)]
                if r.random() < .5:
                    ops += [split_op(g, g.t01(), r.choice("lr"), 0)] + [paired("builtin", o) for o in all_ops(g, pty, kind, n, p)[:4]]
                if n >= 3 and can_deriv(pty, kind, n) and r.random() < .5:
                    ops += [deriv_op(g, "y", []), f"pair builtin eval {fx(g.t01())}"]
                g.session(pty, [g.new(kind, p)] + ops)
        for kind, n in NPTS.items():
            for _ in range(scale(3)):
                p = g.poly(n, DIM[pty])
                ops = ["ends", "baseline", f"eval {fx(g.t01())}", f"linear {fx(0.5)} n", split_op(g, g.t01(), "n", 1)]
                g.session(pty, [g.new("seg" + kind, p)] + [paired("builtin", o) for o in ops])
        for d, c in SPL[pty]:
            for _ in range(few(scale, 6, c)):
                u = g.proper_knots(c, d) if r.random() < .8 else g.knots(c, d)
                if r.random() < .1: u[r.randrange(len(u))] = r.choice([NAN, -100.0])
                ops = [paired("builtin", o) for o in spl_ops(g, u, c, d)]
                if g.proper(u, c, d) and d >= 1:
                    ops += [deriv_op(g, "y", [])] + [paired("builtin", "domain")] + [f"pair builtin eval {fx(t)}" for t in g.spl_ts(u, c, d, 1)[:6]]
                g.session(pty, [g.new_spl(u, g.poly(c, DIM[pty]), d)] + ops)


    # every axis is treated like any other: against the curve of some of the axes, over the built-in point
    for pty in BUILTIN + FOREIGN + ["a3"]:
        dim = DIM[pty]
        def select(n, have):
            k = r.choice([k for k in range(1, dim + 1) if k < 4 and have(f"pn{k}")])
            ax = [dim - 1] if k == 1 and r.random() < .4 else r.sample(range(dim), k)
            return ax, f"axes {k} {' '.join(str(i + 1) for i in ax)}"
        def flatten(q, ax): return [x if d in ax else 0.0 for d, x in enumerate(q)]
        for kind, n in g.kinds(pty):
            for _ in range(scale(3)):
                ax, why = select(n, lambda b: kind != "bez" or n in BEZ[b])
                p = g.poly(n, dim)
                ops = [paired(why, o) for o in all_ops(g, pty, kind, n, p) if o.split()[0] not in ("points", "dist", "arclen", "linear", "apoint", "deriv")]
                if can_deriv(pty, kind, n) and (kind != "bez" or n - 1 in BEZ[f"pn{len(ax)}"]): ops.append(paired(why, deriv_op(g, "n", g.tgrid(1))))
                g.session(pty, [g.new(kind, p)] + ops)
                p = [flatten(q, ax) for q in p]                       # metric operations, in a coordinate subspace
                ops = [f"pair {why} dist {fl(flatten(clampq(query(g, p)), ax))}" for _ in range(2 if n <= 5 else 0)]
                if kind != "line": ops.append(f"pair {why} arclen {r.choice([1, 2, 3, 5])}")
                if kind in ("quad", "cubic"):
                    far = max(math.dist(p[0], q) for q in p)
                    for _ in range(3): ops.append(f"pair {why} {r.choice(['linear', 'apoint'])} {fx(far * r.uniform(.01, 2))}")
                g.session(pty, [g.new(kind, p)] + ops)
        for d, c in SPL[pty]:
            for _ in range(few(scale, 1, c)):
                ax, why = select(c, lambda b: (d, c) in SPL[b])
                u = g.proper_knots(c, d)
                p = g.poly(c, dim)
                ops = [f"pair {why} eval {fx(t)}" for t in g.spl_ts(u, c, d, 1)[:6]]
                if (d, c) in SPL[f"pn{len(ax)}"] and d >= 1 and g.proper(u, c, d): ops.append(f"pair {why} deriv 2 {fx(u[d])} {fx(u[c])}")
                g.session(pty, [g.new_spl(u, p, d)] + ops)
                if d >= 1 and g.proper(u, c, d): g.session(pty, [g.new_spl(u, [flatten(q, ax) for q in p], d), f"pair {why} arclen {r.choice([1, 2, 5])}"])


def c17(g, scale):
    r = g.r
    for pty in BUILTIN + FOREIGN:
        for kind, n in g.kinds(pty):
            for _ in range(scale(2)):
                p = g.poly(n, DIM[pty])
                ops = all_ops(g, pty, kind, n, p)
                if kind != "line": ops.append(f"arclen {r.choice([1, 2, 17, 64])}")
                if kind != "bez": ops.append(f"eq {kind} {n} {pl(p)}")
                if kind in ("quad", "cubic"): ops += [f"{o} {fx(tol)} n" for o in ("linear", "apoint") for tol in (0.0, -0.5)]
                ops.append("copy 0")
                ops += [f"dist {fl(clampq(query(g, p)))}"] if n <= 4 else []
                g.session(pty, [g.new(kind, p)] + ops)
        for kind, n in NPTS.items():
            p = g.poly(n, DIM[pty])
            g.session(pty, [g.new("seg" + kind, p), "ends", "baseline", f"eval {fx(g.t01())}", f"linear {fx(0.5)} n", split_op(g, g.t01(), "l", 1)])
        for kind, n in [("quad", 3), ("cubic", 4), ("bez", 3), ("bez", 5 if 5 in BEZ[pty] else 4)]:       # many steps
            g.session(pty, [g.new(kind, g.poly(n, DIM[pty]))] + [f"arclen {round(10 ** r.uniform(1.5, 3.7))}" for _ in range(2)])
        for d, c in SPL[pty]:
            for _ in range(few(scale, 1, c)):
                u = g.knots(c, d, r.choice([None, None, "overlap", "equal", "start", "end"]))
                ops = [g.new_spl(u, g.poly(c, DIM[pty]), d)] + spl_ops(g, u, c, d)
                ops += [f"eval {fx(t)}" for t in (NAN, INF, -INF, 1e308)]
                ops.append("copy 0")
                if d >= 1 and r.random() < .5:                  # of any knot vector, knots repeated too often included
                    ts = g.spl_ts(u, c, d, 1)
                    ops.append(deriv_op(g, "n", r.sample(ts, min(4, len(ts)))))
                    if r.random() < .5:
                        ops += [deriv_op(g, "y", []), "points", "domain", f"eval {fx(r.choice(ts))}", f"eval {fx(u[c])}"]
                        if d >= 2 and c >= 3: ops.append(deriv_op(g, "n", [r.choice(ts)]))
                        g.session(pty, ops)
                        continue
                if d >= 1:
                    ops += [f"arclen {n}" for n in (1, 3)] + ([f"arclen {round(10 ** r.uniform(1.5, 3.7))}"] if r.random() < .3 else [])
                g.session(pty, ops)
            if d >= 1 and c <= 12 and pty in ("pn2", "u2", "v2") and r.random() < .5:        # steps below the spacing of the floats
                at, gap = r.choice([1e6, -1e6]), r.choice([1e-6, 1.5e-6])
                u = [at + gap * (x - d) for x in range(c + d + 1)]
                if c <= d + 2 and r.random() < .5: u = [at - gap] * (d + 1) + u[d + 1:c] + [u[c]] * (d + 1)
                g.session(pty, [g.new_spl(u, g.poly(c, DIM[pty]), d), f"arclen {(c - d) * r.choice([20000, 30000])}"])
    for _ in range(scale(60)):
        K, C, D = r.randrange(12), r.randrange(6), r.randrange(5)
        ctor(g, [g.coord("int") for _ in range(K)], [[g.coord("int")] for _ in range(C)], D)
    for _ in range(scale(30)):
        n = r.choice([1, 2, 3, 4, 5, 8])
        g.session("pt", ["f64", str(n)] + [fx(g.coord("real")) for _ in range(3 * n + 1)])
    for n, p, new in huge_bez(g):
        g.session("pn1", [new] + all_ops(g, "pn1", "bez", n, p) + [f"dist {fl(clampq(query(g, p)))}"])
    for d, c, u, p, new, ts in huge_spl(g):
        g.session("pn1", [new] + spl_ops(g, u, c, d))




def c18(g, scale):
    r = g.r
    for pty in BUILTIN:
        dim = DIM[pty]
        for kind, n in g.kinds(pty):
            for _ in range(scale(4)):
                p = g.poly(n, dim)
                if r.random() < .3: p[r.randrange(n)][r.randrange(dim)] = -0.0
                ops = [g.new(kind, p), "points"]
                rest = all_ops(g, pty, kind, n, p)
                r.shuffle(rest)
                for o in rest[:6]: ops += [o, "points"]
                if kind == "bez":
                    for _ in range(r.randint(1, 4)):
                        i = r.choice([1, n, r.randint(1, n)])
                        q = g.point(dim, r.choice(["int", "real"]))
                        if r.random() < .2: q[r.randrange(dim)] = -0.0
                        ops += [f"set {i} {fl(q)}", "points", f"pair fresh eval {fx(g.t01())}"]
                        p = [q if j == i - 1 else x for j, x in enumerate(p)]
                        rest = [paired("fresh", o) for o in all_ops(g, pty, kind, n, p)]
                        ops += r.sample(rest, min(3, len(rest))) + ["points"]
                        if r.random() < .3:
                            ops += [split_op(g, 0.5, r.choice("lr"), 1), "points"]
                            p = None
                            break
                g.session(pty, ops)
        # points that are equal but not the same: zeros of either sign, repeated points
        for kind, n in g.kinds(pty) + [("seg" + k, n) for k, n in NPTS.items()]:
            for j in range(scale(6 if n <= 5 else 1)):
                vals = r.choice([[0.0, -0.0], [0.0, -0.0, 1.0], [0.0, -0.0, r.uniform(-9, 9)]])
                a, b = ([r.choice(vals) for _ in range(dim)] for _ in range(2))
                flip = [-x if x == 0 else x for x in a]
                p = [list(r.choice([a, a, b, flip])) for _ in range(n)]
                g.session(pty, [g.new(kind, p), "points"] + (["ends"] if kind.startswith("seg") else []))
        for kind, n in NPTS.items():
            g.session(pty, [g.new("seg" + kind, g.poly(n, dim)), "points", "ends", split_op(g, .5, "n", 1), "points"])
        for d, c in SPL[pty]:
            for _ in range(few(scale, 1, c)):
                u = g.proper_knots(c, d)
                ops = [g.new_spl(u, g.poly(c, dim), d), "points"]
                rest = spl_ops(g, u, c, d)
                r.shuffle(rest)
                for o in rest[:5]: ops += [o, "points"]
                g.session(pty, ops)
            # knots that are nearly, or equal but not exactly, the same
            for _ in range(scale(3) if c <= 13 else 1):
                u = g.knots(c, d, r.choice(["clamped", "start", "end", "repeat", "overlap"]))
                if r.random() < .3: u = [x - u[r.choice([0, -1])] for x in u]
                for i in range(1, len(u)):
                    if u[i] <= u[i - 1] and r.random() < .7:
                        u[i] = r.choice([math.nextafter(u[i - 1], INF), u[i - 1] + g.small(8, 20), -u[i - 1] if u[i - 1] == 0 else u[i - 1]])
                        u[i] = max(u[i], u[i - 1]) if u[i] != u[i - 1] else u[i]
                g.session(pty, [g.new_spl(u, g.poly(c, dim), d), "points"])
    for n, p, new in huge_bez(g):
        q = [g.coord("real")]
        g.session("pn1", [new, "points"] + all_ops(g, "pn1", "bez", n, p) + [f"set {n} {fl(q)}", f"set {r.randint(1, n)} {fl(q)}", "points"])
    for d, c, u, p, new, ts in huge_spl(g):
        g.session("pn1", [new, "points"] + spl_ops(g, u, c, d) + ["points"])




def c19(g, scale):
    r = g.r
    for pty in BUILTIN:
        dim = DIM[pty]
        kinds = [("line", 2), ("quad", 3), ("cubic", 4)] + [("bez", n) for n in BEZ[pty] if 2 <= n <= 7]
        for kind, n in kinds:
            for _ in range(scale(12)):
                p = g.poly(n, dim)
                if max(abs(x) for q in p for x in q) > 1e4: p = [[x / 1e3 for x in q] for q in p]
                ops = [g.new(kind, p)]
                k, m, spl = kind, n, False
                ev = lambda: f"evali {fx(g.t01())}"
                for _ in range(r.randint(2, 6)):
                    c = r.randrange(4)
                    if c == 0 and not spl:
                        ops += [split_op(g, g.t01(), r.choice("lr"), 1), ev()]
                    elif c == 1 and m > 2:
                        ops += [deriv_op(g, "y", [g.t01()]), ev()]
                        m -= 1
                        if not spl: k = {"cubic": "quad", "quad": "line", "bez": "bez"}[k]
                    elif c == 2 and not spl:
                        to = {"line": ["bez", "quad", "cubic", "spl"], "quad": ["bez", "cubic", "spl"], "cubic": ["bez", "spl"]}.get(k)
                        if k == "bez": to = ["spl"] + {2: ["line", "quad", "cubic"], 3: ["quad", "cubic"], 4: ["cubic"]}.get(m, [])
                        to = r.choice(to)
                        if to == "spl" and (m - 1, m) not in SPL[pty]: continue
                        if to in NPTS: m = NPTS[to]
                        k = to
                        spl = to == "spl"
                        ops += [f"recast {to}", ev()]
                    if not spl:
                        tos = {"line": ["bez", "quad", "cubic", "spl"], "quad": ["bez", "cubic", "spl"], "cubic": ["bez", "spl"]}.get(k) or \
                            (["spl"] + {2: ["line", "quad", "cubic"], 3: ["quad", "cubic"], 4: ["cubic"]}.get(m, []))
                        for to in r.sample(tos, min(2, len(tos))):
                            if to == "spl" and (m - 1, m) not in SPL[pty]: continue
                            ops += [f"pair {to} eval {fx(g.t01())}", f"pair {to} deriv 2 {fl([g.t01(), g.t01()])}"]
                            if k != "line" and to != "line": ops.append(f"pair {to} arclen {r.choice([1, 2, 3, 5])}")
                            if to != "spl" and k != "line" and to != "line": ops.append(f"pair {to} dist {fl(g.point(dim, 'real'))}")
                            if to in NPTS and k in NPTS: ops.append(f"pair {to} bbox")
                ops += [f"evali {fx(t)}" for t in (0.0, 1.0)]
                g.session(pty, ops)


def c20(g, scale):
    r = g.r
    def near(p):
        """curves that differ little from p, or not at all"""
        n, dim = len(p), len(p[0])
        q = [list(x) for x in p]
        i, d = r.choice([0, n - 1, r.randrange(n)]), r.choice([dim - 1, r.randrange(dim)])
        k = r.randrange(9)
        if k == 0: pass
        elif k == 1: q[i][d] = math.nextafter(q[i][d], r.choice([INF, -INF]))
        elif k == 2: q[i][d] += r.choice([1, -1]) * g.small(0, 15) * max(1.0, abs(q[i][d]))
        elif k == 3: q[i][d] = -q[i][d]
        elif k == 4: q.reverse()
        elif k == 5 and n > 2: q[1:-1] = [list(q[r.randrange(n)]) for _ in range(n - 2)]
        elif k == 6: q = [[(0.0 if x == 0 and r.random() < .5 else -0.0 if x == 0 else x) for x in y] for y in q]
        elif k == 7: q[i] = [x + 1.0 for x in q[i]]
        else: r.shuffle(q)
        return q
    for pty in BUILTIN + FOREIGN:
        dim = DIM[pty]
        for kind, n in NPTS.items():
            for seg in ("", "seg"):
                for _ in range(scale(4)):
                    p = g.poly(n, dim)
                    ops = [g.new(seg + kind, p), f"eq {kind} {n} {pl(p)}"]
                    for _ in range(4):
                        q = near(p)
                        ops.append(f"eq {kind} {n} {pl(q)}")
                    if seg:                             # another kind, the same ends or even the same curve
                        for to, m in NPTS.items():
                            q = [p[0]] + [r.choice(p) for _ in range(m - 2)] + [p[-1]]
                            if m > n and r.random() < .5:
                                q = p
                                while len(q) < m: q = g.elevate(q)
                            ops.append(f"eq {to} {m} {pl(q)}")
                    ops.append("copy 0")
                    if all(x == x for q in p for x in q):
                        if seg:
                            rest = ["ends", "baseline", f"eval {fx(g.t01())}", f"linear {fx(abs(g.coord('real')))} n", split_op(g, g.t01(), "n", 1)]
                        else:
                            rest = [o for o in all_ops(g, pty, kind, n, p) if kind != "line" or o != "baseline"]
                        ops += [paired("copy", o) for o in r.sample(rest, min(4, len(rest)))]
                    g.session(pty, ops)
        for n in BEZ[pty]:
            for _ in range(scale(2)):
                p = g.poly(n, dim)
                ops = [g.new("bez", p), "copy 0"] + [f"copy {i} {fl(g.point(dim, 'real'))}" for i in {1, n, r.randint(1, n)}]
                rest = [o for o in all_ops(g, pty, "bez", n, p)]
                ops += [paired("copy", o) for o in r.sample(rest, min(4, len(rest)))]
                if r.random() < .5:
                    q = g.point(dim, "int")
                    ops += [f"set {r.randint(1, n)} {fl(q)}", "copy 0", f"pair copy eval {fx(g.t01())}"]
                g.session(pty, ops)
        for d, c in SPL[pty]:
            for _ in range(few(scale, 2, c)):
                u = g.knots(c, d)
                ops = [g.new_spl(u, g.poly(c, dim), d), "copy 0"] + [paired("copy", o) for o in spl_ops(g, u, c, d)]
                if g.proper(u, c, d) and d >= 1 and r.random() < .5:
                    ops += [deriv_op(g, "y", []), "copy 0", paired("copy", "domain")] + [f"pair copy eval {fx(t)}" for t in g.spl_ts(u, c, d, 1)[:6]]
                g.session(pty, ops)
    for n, p, new in huge_bez(g):
        g.session("pn1", [new, "copy 0", f"copy {n} {fl([g.coord('real')])}", f"pair copy eval {fx(g.t01())}"])
    for d, c, u, p, new, ts in huge_spl(g):
        g.session("pn1", [new, "copy 0", f"pair copy eval {fx(ts[0])}"])




GEN = {f"C{i:02d}": globals()[f"c{i:02d}"] for i in range(1, 21)}


def generate(prop, seed, factor):
    g = Gen(seed, prop)
    GEN[prop](g, lambda n: max(1, round(n * factor)))
    return g.lines


if __name__ == "__main__":
    sys.stdout.write("\n".join(generate(sys.argv[1], int(sys.argv[2]), float(sys.argv[3]))) + "\n")
