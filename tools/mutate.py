#!/usr/bin/env python3
"""Systematic mutation sweep (development tool): plants mechanical one-token changes in the library, drops those
the repository's own tests notice, and runs the checks (with a share of their quick cases) on the rest.
usage: mutate.py OUT.jsonl [--stride K --offset O] [--files a.cpp,b.h] [--share 0.1]     prints surviving mutants"""
import sys, os, re, json, subprocess, shutil, tempfile, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; OUT = a.pop(0); stride = 1; offset = 0; files = None; share = 0.1; ids = None
while a:
    o = a.pop(0)
    if o == "--stride": stride = int(a.pop(0))
    elif o == "--offset": offset = int(a.pop(0))
    elif o == "--files": files = a.pop(0).split(",")
    elif o == "--ids": ids = {int(x) for x in a.pop(0).split(",")}
    elif o == "--share": share = float(a.pop(0))
T = tempfile.mkdtemp(prefix="mut_", dir="/tmp"); R = T + "/repo"
subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
SRC = sorted(glob.glob(R + "/src/*.cpp") + [R + "/include/" + h for h in ("matrix.h", "sparse_matrix.h", "constraint.h", "spring.h", "rigid_body_system.h", "gauss_seidel_sle_solver.h", "conjugate_gradient_sle_solver.h", "line_constraint.h", "link_constraint.h", "rolling_constraint.h", "constant_speed_motor.h")])
if files == ["src"]: SRC = [s for s in SRC if s.endswith(".cpp")]
elif files: SRC = [s for s in SRC if os.path.basename(s) in files]
RULES = [(r"(?<=[\w\)\]]) \+ (?=[\w\(])", " - "), (r"(?<=[\w\)\]]) - (?=[\w\(])", " + "), (r"(?<=[\w\)\]]) \* (?=[\w\(])", " / "), (r"(?<=[\w\)\]]) / (?=[\w\(])", " * "),
  (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
  (r" \+= ", " = "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " /= "),
  (r"(?<![\w.])0(?![\w.x])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])3(?![\w.])", "2"),
  (r"(?<![\w.])0\.0(?![\w])", "1.0"), (r"(?<![\w.])1\.0(?![\w])", "1.001"), (r"(?<![\w.])0\.5(?![\w])", "0.501"), (r"(?<![\w.])2\.0(?![\w])", "2.002"),
  (r"\bcos\b|std::cos", None), (r"\bsin\b|std::sin", None), (r"\bfmin\b|std::min", None), (r"(?<=[=(,]) -(?=\w)", " "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"_x\b", "_y"), (r"_y\b", "_x")]
def swap(m):
    s = m.group(0); return s.replace("cos", "sin") if "cos" in s else s.replace("sin", "cos") if "sin" in s else s.replace("min", "max")
def mutants():
    for p in SRC:
        L = open(p).read().split("\n")
        for i, l in enumerate(L):
            s = l.strip()
            if not s or s.startswith(("#", "//", "*", "/*", "assert", "}", "{", "class", "template", "virtual", "namespace", "static_assert")) or "std::chrono" in s: continue
            for rx, to in RULES:
                for m in re.finditer(rx, l):
                    n = l[:m.start()] + (swap(m) if to is None else to) + l[m.end():]
                    if n != l: yield p, i, n
            if re.match(r"^(?!return|const|int |double |break|continue|delete|bool |using|friend|public|for|if|else|auto)[\w\[\]>.\-\(\),:* +&=/]+;$", s) and not re.match(r"^\w[\w:]*[ *&]+\w+( =.*)?;$", s): yield p, i, re.match(r"\s*", l).group(0) + ";"
ORDER = {"matrix": [16], "sparse_matrix": [17], "gauss_seidel_sle_solver": [7], "conjugate_gradient_sle_solver": [6], "gaussian_elimination_sle_solver": [5], "system_state": [26, 12], "rigid_body_system": [14, 24], "rk4_ode_solver": [12], "euler_ode_solver": [12], "nsv_ode_solver": [12], "spring": [11], "static_force_generator": [11], "gravity_force_generator": [11], "constant_speed_motor": [11], "rigid_body": [23], "generic_rigid_body_system": [1, 3], "optimized_nsv_rigid_body_system": [2, 3, 4]}
def order(p):
    b = os.path.basename(p).rsplit(".", 1)[0]; f = ORDER.get(b, [10, 9] if "constraint" in b else [])
    return f + [i for i in (18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27) if i not in f]
Q = {}
for i in range(1, 28):
    m = re.search(r"QUICK_CASES = (\d+)", open(V + "/harness/props/C%02d.cpp" % i).read()); Q[i] = int(m.group(1))
env = dict(os.environ, CC="gcc", CXX="g++")
subprocess.run(["cmake", "-S", R, "-B", T + "/rb", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS=-Wno-error -w -D__forceinline=inline -include cstring", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest"], check=True, env=env, stdout=subprocess.DEVNULL)
subprocess.run(["ninja", "-C", T + "/rb"], check=True, stdout=subprocess.DEVNULL)
penv = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=T + "/b", VERIF_NOSHRINK="1")
done = set()
if os.path.exists(OUT): done = {json.loads(l)["id"] for l in open(OUT)}
try:
    for n, (p, i, new) in enumerate(mutants()):
        if n not in ids if ids else n % stride != offset: continue
        rel = os.path.relpath(p, R); mid = "%d:%s:%d" % (n, rel, i + 1)
        if mid in done: continue
        orig = open(p).read(); L = orig.split("\n"); old = L[i]; L[i] = new; open(p, "w").write("\n".join(L)); t = time.time(); st = None
        try:
            try:
                if subprocess.run(["ninja", "-C", T + "/rb"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300).returncode: st = "nobuild"
                elif subprocess.run(["ctest", "--test-dir", T + "/rb", "-j8", "--timeout", "20"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100).returncode: st = "tests"
            except subprocess.TimeoutExpired: st = "tests"
            if not st:
                for c in order(p):
                    try: x = subprocess.run([V + "/check", "C%02d" % c, "--tier", "quick", "--cases", str(max(200, int(Q[c] * share)))], capture_output=True, text=True, env=penv, timeout=600)
                    except subprocess.TimeoutExpired: st = "timeout C%02d" % c; break
                    if x.returncode == 1: st = "C%02d" % c; break
                    if x.returncode != 0: st = "rc%d C%02d" % (x.returncode, c); break
                else: st = "SURVIVED"
        finally: open(p, "w").write(orig)
        with open(OUT, "a") as f: f.write(json.dumps({"id": mid, "st": st, "old": old.strip(), "new": new.strip(), "s": round(time.time() - t, 1)}) + "\n")
        if st == "SURVIVED": print(mid, "|", old.strip(), "->", new.strip(), flush=True)
        for f in glob.glob(T + "/b/obj/*.o"):
            if os.path.getmtime(f) > t and "/%s" in f: os.unlink(f)
finally: shutil.rmtree(T)
