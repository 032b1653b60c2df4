#!/usr/bin/env python3
"""selftest.py [Cxx ...]: corrupts recorded sessions, field by field, and reports what the specification says of them.

Every session is recorded from the real library, so it conforms.  One field of one event is then changed (a number
perturbed, replaced by NaN or infinity, a list shortened, a flag negated, a status turned into a panic).  A table
shows per call, field and corruption how many corrupted sessions TLC refused, for the property's own judgement.
TLC must never stop with an evaluation error: a library that returns odd values has to be reported, not crash the check.
"""
import json, os, random, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, gen

PER = int(os.environ.get("PER", "6"))            # corruptions per (call, field, way)
NUM = re.compile(r"-?\d+(:-?\d+)?$|nan$|-?inf$")


INPUTS = {("new", "knots"), ("new", "d"), ("split", "s"), ("set", "i"), ("set", "p"), ("copy", "i"), ("copy", "p"), ("dist", "p"), ("arclen", "n"),
          ("linear", "tol"), ("apoint", "tol"), ("oob", "n")}


def leaves(x, path=()):
    """every field below x, lists included"""
    if isinstance(x, dict):
        for k, v in x.items(): yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x: yield path, x
        for i, v in enumerate(x): yield from leaves(v, path + (i,))
    else: yield path, x


def ways(x, name):
    if isinstance(x, list): return ["shorter", "longer"]
    if isinstance(x, int): return ["plus one"]
    if name == "st": return ["panic", "hang"]
    if name == "err": return ["other error"]
    if name in ("op", "t", "s", "why", "what", "to", "keep", "axis", "tol", "exact", "m", "kind"): return []
    if isinstance(x, str) and NUM.match(x): return ["perturbed", "nan", "inf", "negated"]
    if x in ("y", "n"): return ["negated flag"]
    if isinstance(x, str): return ["other text"]
    return []


def corrupt(x, how, r):
    if how == "shorter": return x[:-1]
    if how == "longer": return x + [x[-1]]
    if how == "plus one": return x + 1
    if how == "panic": return "panic: selftest"
    if how == "hang": return "hang"
    if how == "other error": return "KnotDomainViolation" if x == "" else ""
    if how == "other text": return x + "x"
    if how == "negated flag": return "n" if x == "y" else "y"
    if how in ("nan", "inf"): return how
    if x in ("nan", "inf", "-inf"): return "1"
    m, _, e = x.partition(":")
    if how == "negated": return x[1:] if x[0] == "-" else "-" + x
    v = abs(int(m)) * 2.0 ** int(e or 0)
    d = max(v * 2 ** -7, 2 ** -10)               # a relative change of about 1%
    from fractions import Fraction
    f = Fraction(int(m)) * Fraction(2) ** int(e or 0) + Fraction(d) * r.choice([1, -1])
    n, q = f.numerator, f.denominator
    k = q.bit_length() - 1
    assert q == 1 << k
    return f"{n}:{-k}" if k else str(n)


def put(x, path, v):
    if not path: return v
    if isinstance(x, dict): return {k: (put(y, path[1:], v) if k == path[0] else y) for k, y in x.items()}
    return [put(y, path[1:], v) if i == path[0] else y for i, y in enumerate(x)]


def selftest(prop, seed=1):
    r = random.Random(seed)
    out = os.path.join(check.VERIF, "out", "selftest_" + prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cls, driver = check.build()
    lines = gen.generate(prop, seed, 1.0)
    _, trace, _ = check.drive(driver, lines, out)
    ss = [json.loads(l) for l in open(trace)]
    sites = {}
    for i, s in enumerate(ss):
        for j, ev in enumerate(s["ev"]):
            for path, x in leaves(ev):
                if path and (ev["op"], path[0]) in INPUTS or path[:1] == ("pts",) and ev["op"] in ("new", "eq"): continue
                field = ".".join(str(p) for p in path if not isinstance(p, int))
                for how in ways(x, [p for p in path if not isinstance(p, int)][-1]):
                    sites.setdefault((ev["op"], ev.get("kind", "") and "", field, how), []).append((i, j, path))
    todo = []
    for key, at in sorted(sites.items()):
        for i, j, path in r.sample(at, min(PER, len(at))):
            x = ss[i]["ev"][j]
            for p in path: x = x[p]
            s = dict(ss[i], ev=ss[i]["ev"][:j] + [put(ss[i]["ev"][j], path, corrupt(x, key[3], r))] + (ss[i]["ev"][j + 1:] if key[2] != "st" else []))   # a session ends with a panic
            todo.append((key, s, (i, j, path, x)))
    errors = []
    while True:
        tr = os.path.join(out, "corrupt.ndjson")
        open(tr, "w").write("".join(json.dumps(s) + "\n" for _, s, _ in todo))
        code, txt = check.tlc(cls, out, "Trace", "Trace", {"TRACE": tr, "PROPERTY": prop}, workers=1 if errors else None, heap="6g", args=("-continue",))
        if "Model checking completed" in txt: break
        m = re.findall(r"^/\\ sid = (\d+)", txt, re.M)
        err = next((l for l in txt.splitlines() if l.startswith("Error: ") or "ttempted" in l), "?")
        if not m:
            print("\n".join(txt.splitlines()[-30:])); sys.exit(2)
        k = int(m[-1]) - 1
        errors.append((todo[k][0], err[:200]))
        print("  TLC ERROR", todo[k][0], "\n".join(l for l in txt.splitlines() if "BAD" not in l)[-1800:][:600] if len(errors) < 4 else err[:150])
        key = todo[k][0]
        todo = [x for x in todo if x[0] != key]
    hit = {int(m.group(1)) - 1 for m in re.finditer(r'<<\s*"BAD",\s*(\d+),', txt)}
    table = {}
    for k, (key, _, _) in enumerate(todo):
        a = table.setdefault(key, [0, 0])
        a[0] += k in hit
        a[1] += 1
    judged = sum(a for a, _ in table.values()), sum(n for _, n in table.values())
    print(f"{prop}: {judged[0]} of {judged[1]} corrupted sessions refused, {len(errors)} evaluation errors")
    for (op, _, field, how), (a, n) in table.items():
        if a < n: print(f"    {op:9} {field:14} {how:14} {a}/{n}")
    return len(errors)


if __name__ == "__main__":
    ps = sys.argv[1:] or ["C%02d" % i for i in range(1, 21)]
    sys.exit(1 if sum(selftest(p) for p in ps) else 0)
