#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] [--keep]

Decides one property on /repo's working tree:
  1. build the driver against /repo, compile the rational-arithmetic override of TLC;
  2. model-check the design-level models of the property (spec/, see MODELS);
  3. execute session programs (from TLC's own behaviours and from the seeded generators) on the
     real library, recording every call;
  4. let TLC validate every recorded session against the specification (spec/Trace.tla).
Exit 0: held; 1: VIOLATION line; 2: the check itself failed.
"""
import argparse, json, os, re, shutil, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import gen, models

TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-08-21-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
           PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
ENV.pop("RUSTFLAGS", None)
LEVEL = "model_checking"


class Broken(Exception):
    """the check itself failed (exit 2)"""


class Refused(Exception):
    """the library builds, but no longer accepts the types or operations that the property quantifies over"""


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        raise Broken(f"timed out: {' '.join(map(str, cmd))[:200]}") from e


def build(prop=""):
    cls = os.path.join(BUILD, "classes")
    os.makedirs(cls, exist_ok=True)
    r = run(["javac", "-cp", TLA, "-d", cls, os.path.join(VERIF, "spec", "java", "Rat.java")], 120)
    if r.returncode: raise Broken("javac failed:\n" + r.stdout)
    r = run(["cargo", "build", "--offline", "--locked", "--quiet"], 600, cwd=os.path.join(VERIF, "harness"), env=ENV)
    if r.returncode:
        types = ["Point", "Add", "Sub", "Mul", "Float", "Spline"]
        lost = dict(C16=types, C20=["Clone", "Copy", "PartialEq"], C15=["From"]).get(prop, [])
        lost = [l for l in r.stdout.splitlines() if re.search(r"error\[E0(277|599|369|271|308)\]", l)
                and any(re.search(rf"\b{t}\b", l) for t in lost)]
        if lost and run(["cargo", "build", "--offline", "--locked", "--quiet", "-p", "stroke"], 600, cwd=os.path.join(VERIF, "harness"), env=ENV).returncode == 0:
            raise Refused(r.stdout)
        raise Broken("the driver does not build against /repo:\n" + r.stdout[-6000:])
    return cls, os.path.join(ENV["CARGO_TARGET_DIR"], "debug", "driver")


def tlc(cls, out, module, cfg=None, env=None, workers=None, heap="4g", timeout=800, args=()):
    """runs TLC in a scratch metadir; returns (exit code, output)"""
    meta = os.path.join(out, "meta_" + module + (("_" + os.path.basename(cfg)) if cfg else ""))
    shutil.rmtree(meta, ignore_errors=True)
    tmp = meta + "_tmp"                        # TLC leaves files in the temporary directory
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmp, "-Xss64m", f"-Xmx{heap}", "-cp", f"{cls}:{TLA}", "tlc2.TLC", "-workers", str(workers or os.cpu_count() or 4),
           "-metadir", meta, "-noGenerateSpecTE", *args]
    if cfg: cmd += ["-config", cfg + ".cfg"]
    cmd.append(module + ".tla")
    r = run(cmd, timeout, cwd=os.path.join(VERIF, "spec"), env=dict(os.environ, **(env or {})))
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode, r.stdout


def run_models(cls, out, prop, tier):
    """the design-level models of a property, several at a time"""
    from concurrent.futures import ThreadPoolExecutor
    def one(m):
        cfg = os.path.join(out, m["name"])
        with open(cfg + ".cfg", "w") as f:
            f.write(f"SPECIFICATION Spec\nINVARIANT {' '.join(m['inv'])}\nCHECK_DEADLOCK {'TRUE' if m['deadlock'] else 'FALSE'}\n")
            f.write("".join(f"PROPERTY {x}\n" for x in m["prop"]))
            if m["const"]: f.write("CONSTANTS\n" + "".join(f"  {k} = {models.tla(v)}\n" for k, v in m["const"].items()))
            f.write("".join(f"  {k} <- {v}\n" for k, v in m.get("override", {}).items()))
        code, txt = tlc(cls, out, m["module"], cfg, dict(PROPERTY=prop), workers=m["workers"], heap=m["heap"])
        return m, code, txt
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, models.for_property(prop, tier)))


def prove(out, module, mutant=None):
    """TLAPS on one module of spec/ (in a scratch directory); returns (obligations, proved)"""
    d = os.path.join(out, "proof_" + module + ("_mutant" if mutant else ""))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    text = open(os.path.join(VERIF, "spec", module + ".tla")).read()
    if mutant:
        assert text.count(mutant[0]) == 1, mutant
        text = text.replace(*mutant)
    open(os.path.join(d, module + ".tla"), "w").write(text)
    r = run(["tlapm", "--cleanfp", "--stretch", "1" if mutant else "10", module + ".tla"], 700, cwd=d, env=dict(os.environ, HOME=d))
    shutil.rmtree(d, ignore_errors=True)
    if m := re.search(r"All (\d+) obligations? proved", r.stdout): return int(m.group(1)), int(m.group(1)), r.stdout
    if m := re.search(r"(\d+)/(\d+) obligations? failed", r.stdout): return int(m.group(2)), int(m.group(2)) - int(m.group(1)), r.stdout
    raise Broken(f"tlapm failed on {module}:\n" + r.stdout[-3000:])


def counts(txt):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
    return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)


def drive(driver, lines, out):
    """executes the programs; a call that never returns or kills the driver becomes a "stuck" event"""
    prog, trace = os.path.join(out, "programs.txt"), os.path.join(out, "trace.ndjson")
    open(prog, "w").write("\n".join(lines) + "\n")
    if os.path.exists(trace): os.remove(trace)
    skip, stuck = 0, 0
    while True:
        r = subprocess.run([driver, prog, trace, str(skip)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
        done = sum(1 for _ in open(trace)) if os.path.exists(trace) else 0
        if r.returncode == 0 and done == len(lines): return prog, trace, stuck
        if r.returncode not in (97,) and r.returncode >= 0:
            raise Broken(f"the driver failed ({r.returncode}): {r.stdout[-2000:]}")
        # the session after the last complete one hangs (97) or dies by a signal
        raw = open(trace).read() if os.path.exists(trace) else ""
        if raw and not raw.endswith("\n"):
            raw = raw[:raw.rindex("\n") + 1] if "\n" in raw else ""
            done = raw.count("\n")
        st = "hang" if r.returncode == 97 else f"killed by signal {-r.returncode}"
        raw += json.dumps({"sid": lines[done].split()[0], "ev": [{"op": "stuck", "st": st, "al": 0}]}) + "\n"
        open(trace, "w").write(raw)
        skip = done + 1
        stuck += 1
        if skip >= len(lines): return prog, trace, stuck
        if stuck > 5:      # enough to report; the rest is not executed
            open(prog, "w").write("\n".join(lines[:skip]) + "\n")
            return prog, trace, stuck


def validate(cls, out, trace, prop, heap="8g"):
    env = {"TRACE": trace, "PROPERTY": prop}
    code, txt = tlc(cls, out, "Trace", "Trace", env, heap=heap)
    bad = []
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{.*?\})\s*>>', txt, re.S):
        bad.append((int(m.group(1)), int(m.group(2)), " ".join(m.group(3).split())))
    bad = sorted(set(bad))
    complete = "Model checking completed" in txt
    if not complete and "The behavior up to this point is" in txt and not re.search(r"OutOfMemory|StackOverflow|GC overhead", txt):
        # TLC could give the record of an event no meaning (a list too short, a number missing): no behaviour of
        # the specification has such an event
        last = txt[:txt.rindex(" states generated")]
        ev = re.findall(r"^/\\ l = (\d+)", last, re.M), re.findall(r"^/\\ sid = (\d+)", last, re.M)
        if ev[0] and ev[1]: return bad + [(int(ev[1][-1]), int(ev[0][-1]), "the record of the event has no meaning in the specification")], counts(txt)
    if code != 0 or not complete:
        raise Broken("TLC failed on the trace:\n" + "\n".join(txt.splitlines()[-40:]))
    return bad, counts(txt)


def known_findings():
    """lines "finding: property=Cxx program=<sha1 of the session program> <what fails>" """
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(C\d\d) program=(\w+) (.*)", l.strip())
            if m: r[(m.group(1), m.group(2))] = m.group(3)
    return r


def sha(line):
    import hashlib
    return hashlib.sha1(line.split(None, 1)[1].encode()).hexdigest()[:16]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--factor", type=float, default=None)
    ap.add_argument("--nomodels", action="store_true")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    if prop == "setup":
        build()
        return 0
    t0 = time.time()
    out = os.path.join(VERIF, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=a.seed, level=LEVEL, violations=0)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    viol = []
    cls, driver = build(prop)
    times = {"build": round(time.time() - t0, 1)}

    # ---- design-level models
    t1 = time.time()
    cov["models"] = []
    tlc_programs = []
    if not a.nomodels:
        for m, code, txt in run_models(cls, out, prop, tier):
            if m["expect"] == "pass":
                if code != 0 or "No error has been found" not in txt:
                    raise Broken(f"model {m['name']} fails:\n" + "\n".join(l[:300] for l in txt.splitlines() if not l.startswith('"PROG'))[-6000:])
            elif "is violated" not in txt:
                raise Broken(f"mutant model {m['name']} is not rejected:\n" + "\n".join(l[:300] for l in txt.splitlines())[-3000:])
            s, t = counts(txt)
            cov["states"] += s
            cov["transitions"] += t
            ps = models.programs(txt, m, a.seed) if m["expect"] == "pass" else []
            cov["models"].append(dict(model=m["name"], states=s, transitions=t, expect=m["expect"], programs=len(ps)))
            tlc_programs += ps
        cov["proofs"] = []
        for module, mutants in models.PROOFS.get(prop, []):
            total, proved, txt = prove(out, module)
            if proved < total: raise Broken(f"{module}: {total - proved} of {total} obligations are not proved\n" + txt[:3000])
            refused = 0
            for mu in mutants if tier == "thorough" else []:
                n, ok, _ = prove(out, module, mu)
                if n == ok: raise Broken(f"{module}: the defect {mu[1]!r} is proved")
                refused += 1
            cov["proofs"].append(dict(module=module, checker="tlapm", obligations=total, discharged=proved, defects_refused=refused))
    times["models"] = round(time.time() - t1, 1)

    # ---- sessions on the real code
    rounds = 1 if tier == "quick" else int(os.environ.get("VERIF_ROUNDS", "12"))
    factor = a.factor or models.FACTOR.get(prop, 1.0) * (1.0 if tier == "quick" else 2.0)
    limit = 780 if tier == "quick" else 3600 * 3
    evs = calls = stuck = 0
    ops = {}
    known = known_findings()
    seen = set()
    for rnd in range(rounds):
        lines = gen.generate(prop, a.seed * 1000 + rnd if rnd else a.seed, factor)
        if rnd == 0: lines += [f"m{i} {l}" for i, l in enumerate(tlc_programs)]
        t1 = time.time()
        progf, trace, st = drive(driver, lines, out)
        times["driver"] = round(times.get("driver", 0) + time.time() - t1, 1)
        stuck += st
        t1 = time.time()
        bad, (s, t) = validate(cls, out, trace, a.property, heap="8g" if tier == "quick" else "16g")
        times["validate"] = round(times.get("validate", 0) + time.time() - t1, 1)
        lines = open(progf).read().splitlines()
        cov["states"] += s
        cov["transitions"] += t
        cov["traces_validated_against_impl"] += len(lines)
        with open(trace) as f:
            for i, l in enumerate(f):
                for e in json.loads(l)["ev"]:
                    evs += 1
                    ops[e["op"]] = ops.get(e["op"], 0) + 1
                if rnd == 0 and i in (0, len(lines) // 2):
                    cov["samples"].append(dict(program=lines[i][:600], recorded=l[:1200]))
        for sid, pos, what in bad:
            key = (prop, sha(lines[sid - 1]))
            if key in known:
                if key not in seen: print(f"KNOWN-FINDING: property={prop} {known[key]}")
                seen.add(key)
                continue
            viol.append((lines[sid - 1], pos, what, trace, sid))
        if viol: break
        if time.time() - t0 > limit * 0.8: break
    cov["events"] = evs
    cov["events_by_call"] = dict(sorted(ops.items()))
    cov["sessions_from_tlc_behaviours"] = len(tlc_programs)
    cov["seconds"] = times
    ev["coverage"] = cov
    ev["assumptions"] = models.ASSUMPTIONS
    ev["violations"] = len(viol)
    ev["wall_s"] = round(time.time() - t0, 1)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if viol:
        path = os.path.join(out, "violation.json")
        recs = []
        for line, pos, what, trace, sid in viol[:20]:
            with open(trace) as f:
                rec = next(l for i, l in enumerate(f) if i == sid - 1)
            recs.append(dict(program=line, event=pos, clauses=what, recorded=json.loads(rec)["ev"][pos - 1 if pos else 0]))
        json.dump(dict(property=prop, total=len(viol), violations=recs, replay="python3 tools/replay.py " + path), open(path, "w"), indent=1)
        for r in recs[:5]:
            print(f"  event {r['event']} of: {r['program'][:300]}\n    {r['clauses']}\n    {json.dumps(r['recorded'])[:400]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop} held: {cov['traces_validated_against_impl']} sessions, {evs} calls, {cov['states']} states, {ev['wall_s']} s {times}")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Refused as e:
        prop = sys.argv[1]
        path = os.path.join(VERIF, "out", prop, "violation.txt")
        open(path, "w").write(str(e))
        print("the library builds, but programs that the property speaks about do not:\n" + "\n".join(str(e).splitlines()[:12]))
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    except Broken as e:
        print("CHECK FAILED:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("CHECK FAILED: timeout", e)
        sys.exit(2)
    except Exception:                     # a defect of the machinery, never a verdict
        traceback.print_exc()
        sys.exit(2)
