#!/usr/bin/env python3
"""Runs checks against the planted bugs in scratch copies (development tool). usage: try_seeded.py [--all-props] [--seed N] [id-prefix ...]
Default: each bug against its own property. Appends to build/matrix.json."""
import os, sys, json, subprocess, shutil, tempfile, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; allp = "--all-props" in a; a = [x for x in a if x != "--all-props"]; seed = "1"
if "--seed" in a: i = a.index("--seed"); seed = a[i + 1]; del a[i:i + 2]
mp = os.path.join(V, "build", "matrix.json")
mat = json.load(open(mp)) if os.path.exists(mp) else {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    sid = os.path.basename(d)
    if a and not any(sid.startswith(x) for x in a): continue
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="try_", dir="/tmp")
    try:
        r = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        subprocess.run(["git", "-C", r, "apply", d + "/patch.diff"], check=True)
        props = [prop] if not allp else ["C%02d" % i for i in range(1, 28)]
        for p in props:
            t = time.time()
            x = subprocess.run([V + "/check", p, "--tier", "quick", "--seed", seed], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r, VERIF_BUILD=tmp + "/b"))
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
            m = [l for l in x.stdout.splitlines() if "FAIL" in l or "message" in l or "violat" in l.lower()]
            ok = x.returncode == 1 and any("property=" + p in l for l in v)
            q = __import__("re").search(r"case=(\d+)", " ".join(m)); mat.setdefault(sid, {})[p] = ("case " + q.group(1) if q else "caught") if ok else "rc%d" % x.returncode
            if not allp or ok or x.returncode not in (0, 1): print("%-24s %s %-12s %5.1fs %s" % (sid, p, mat[sid][p][:12], time.time() - t, (m or [""])[0][:150]), flush=True)
    finally: shutil.rmtree(tmp)
    os.makedirs(os.path.join(V, "build"), exist_ok=True); json.dump(mat, open(mp, "w"), indent=1, sort_keys=True)
