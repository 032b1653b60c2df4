#!/usr/bin/env python3
"""mutants.py [file ...]: small systematic edits of the library (an operator, a bound, a constant, a dropped statement),
each in a scratch copy. Those that still build and pass the 25 tests are given to the checks of the properties that the
edited function serves; what no check reports is printed as ALIVE, to be judged by hand (equivalent, or a gap).
No check reads this file."""
import os, queue, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["bezier", "cubic_bezier", "quadratic_bezier", "line", "bspline", "bezier_segment", "point_generic"]
FN = [("new", "C18 C09"), ("eval", "C01"), ("axis", "C01 C14"), ("split", "C02"), ("deriv", "C03 C17"), ("dd", "C03"), ("bounding", "C04 C17"), ("roots", "C04 C17"),
      ("root", "C04"), ("solve", "C04"), ("distance", "C05 C17"), ("arclen", "C07 C17"), ("is_", "C08"), ("are_", "C08"), ("baseline", "C08"), ("control", "C18"), ("iter", "C18")]
SPL = [("new", "C09 C18 C10"), ("derivative", "C12 C17"), ("arclen", "C13 C17"), ("control", "C18"), ("knots", "C18"), ("", "C10 C11")]

def props(file, fn):
    if file == "bspline": return next(p for k, p in SPL if k in fn).split() + ["C11", "C17"]
    if file == "point_generic": return ["C14", "C16"]
    if file == "bezier_segment": return ["C15", "C20"]
    ps = next((p for k, p in FN if k in fn), "C01 C02 C03 C18").split()
    if file == "line": ps = [p.replace("C05", "C06") for p in ps]
    return ps + ["C19"]

OPS = [(r" \+ ", [" - ", " * "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < ", " >= "]), (r" > ", [" >= ", " < "]),
       (r" >= ", [" > ", " <= "]), (r" == ", [" != ", " <= ", " >= "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\.\.=", [".."]), (r"\.\.(?=[^=.\]])", ["..="]),
       (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r"\+ 1\b(?!\.)", ["+ 2", ""]), (r"- 1\b(?!\.)", ["- 2", ""]), (r"\b1\.0\b", ["0.0", "1.01", "2.0"]), (r"\b2\.0\b", ["1.0", "3.0"]),
       (r"\b3\.0\b", ["2.0"]), (r"\b6\.0\b", ["3.0"]), (r"\b0\.0\b", ["1e-6", "1.0", "-1e-6"]), (r"\b0\.5\b", ["0.25"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\b64\b", ["63", "65", "32"]),
       (r"\bstart\b", ["end"]), (r"\bend\b", ["start"]), (r"\bctrl1\b", ["ctrl2"]), (r"\bctrl2\b", ["ctrl1"]), (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\.0\b(?=[^\d])", [".1"]), (r"\.1\b(?=[^\d])", [".0"]), (r"\bD\b", ["(D + 1)", "(D - 1)"]), (r"\bC\b(?!\w)", ["(C - 1)"]), (r"\bN\b", ["(N - 1)"]), (r"!(?=\w)", [""]), (r"(?<=[(= ])-(?=\w)", [""])]

def mutations(file):
    t = open(f"/repo/src/{file}.rs").read()
    body = t[:t.find("#[cfg(test)]")] if "#[cfg(test)]" in t else t
    fn, depth = "", 0
    pos = 0
    for line in body.split("\n"):
        m = re.search(r"\bfn (\w+)", line)
        if m: fn = m.group(1)
        code = line.split("//")[0]
        if fn not in ("", "solve_t_for_axis", "root") and code.strip() and not re.match(r"\s*(pub |const |fn |impl|where|use |#|type |\w+: [A-Z]|\[\(\); )", code):
            for rx, subs in OPS:
                for k in re.finditer(rx, code):
                    for s in subs: yield fn, pos + k.start(), pos + k.end(), s, line.strip()
            if code.strip().endswith(";") and not code.strip().startswith(("let ", "return", "}")) and code.count("(") == code.count(")"):
                yield fn, pos + len(code) - len(code.lstrip()), pos + len(code.rstrip()), "", line.strip()
        pos += len(line) + 1

def main():
    todo, rows, lock = queue.Queue(), [], threading.Lock()
    for f in sys.argv[1:] or FILES:
        for m in mutations(f): todo.put((f, *m))
    print(todo.qsize(), "mutants", flush=True)
    tests = dict(kept=0, killed=0, build=0, caught=0, alive=0, hang=0)
    def worker(_):
        w = tempfile.mkdtemp(prefix="mutant")
        try:
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            subprocess.run(f"mkdir -p {w}/verif && tar -C {HERE} --exclude=./out --exclude=./seeded --exclude=./.git -cf - . | tar -C {w}/verif -xf -", shell=True, check=True)
            repo = w + "/repo"
            while True:
                try: f, fn, a, b, s, line = todo.get_nowait()
                except queue.Empty: return
                p = f"{repo}/src/{f}.rs"
                t = open(f"/repo/src/{f}.rs").read()
                open(p, "w").write(t[:a] + s + t[b:])
                try:
                    c, o = seeds.sh("timeout 60 cargo test --offline --lib 2>&1 | tail -40", repo)
                except subprocess.TimeoutExpired: c, o = 1, ""
                what = f"{f}.{fn}: `{line}`  [{t[a:b].strip()} -> {s.strip()} @{a - t.rfind(chr(10), 0, a) - 1}]"
                if "could not compile" in o: r = "build"
                elif not re.search(r"test result: ok\. 25 passed", o): r = "killed"
                else:
                    r = "alive"
                    for prop in dict.fromkeys(props(f, fn)):
                        c, o = seeds.sh(["python3", f"{w}/verif/tools/check.py", prop, "--nomodels", "--factor", os.environ.get("FACTOR", "0.3")], w + "/verif", 1200)
                        if c == 1: r = "caught"; break
                        if c == 2 and "does not build" in o: r = "build"; break
                        if c == 2: print("BROKEN", prop, what, o[-500:], flush=True)
                    with lock: print(r.upper(), what, prop, flush=True)
                with lock: tests[r] += 1
                open(p, "w").write(t)
        finally:
            shutil.rmtree(w)
    jobs = int(os.environ.get("JOBS", "4"))
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(worker, range(jobs)))
    print(tests)

if __name__ == "__main__": main()
