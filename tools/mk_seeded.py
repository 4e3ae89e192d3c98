#!/usr/bin/env python3
"""Regenerates seeded/<id>/ from tools/seeded_specs.py (development tool; no check uses it).

For every spec: makes a scratch copy of the repository, applies the edit, writes patch.diff, demo.cpp, demo.sh
and meta.json, and confirms: every removed line is original, it builds, the stable tests pass, and the demo passes
without and fails with the change. usage: mk_seeded.py [id-prefix ...]"""
import os, sys, json, subprocess, shutil, re, tempfile
from concurrent.futures import ThreadPoolExecutor
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T); sys.path.insert(0, T)
from seeded_specs import SPECS
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
PRE = '''#include "scs.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cfloat>
#include <vector>
using namespace atg_scs;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAIL line %d: %s\\n", __LINE__, #c); bad = 1; } } while (0)
#define NEAR(a, b, t) do { double a_ = (a), b_ = (b); if (!(std::fabs(a_ - b_) <= (t))) { std::printf("FAIL line %d: %s = %.17g, expected %.17g\\n", __LINE__, #a, a_, b_); bad = 1; } } while (0)
'''
SH = '''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory, nonzero when it is broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf -- "$d"' EXIT
g++ -std=c++14 -O1 -g -w %s-D__forceinline=inline -include cstring -I "$repo/include" "$here/demo.cpp" "$repo"/src/*.cpp -o "$d/demo" || exit 3
cd "$d" && timeout 120 "$d/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def one(s):
    sid = s["id"]; out = os.path.join(V, "seeded", sid); tmp = tempfile.mkdtemp(prefix="seed_" + sid + "_", dir="/tmp")
    try:
        d = os.path.join(tmp, "repo")
        sh("git clone -q /repo %s" % d)
        for f, old, new in s["edits"]:
            p = os.path.join(d, f); t = open(p).read()
            n = t.count(old)
            if n != 1: return sid, "edit matches %d times in %s: %r" % (n, f, old[:60])
            open(p, "w").write(t.replace(old, new))
        patch = sh("git -C %s diff" % d).stdout
        # every removed line is an original one
        removed = 0
        for f in set(e[0] for e in s["edits"]):
            bl = sh("git -C %s blame -s HEAD -- %s" % (d, f)).stdout.splitlines()
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? \+", sh("git -C %s diff -U0 -- %s" % (d, f)).stdout, re.M):
                a, n = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
                removed += n
                for i in range(a, a + n):
                    l = bl[i - 1]
                    if not BASE.startswith(l.split()[0].lstrip("^")): return sid, "changes a non-original line %s:%d %s" % (f, i, l)
        if not removed: return sid, "pure insertion"
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        open(os.path.join(out, "demo.cpp"), "w").write(PRE + s["demo"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(SH % (s.get("flags", "") + " " if s.get("flags") else ""))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        b = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > %s/build.sh; bash %s/build.sh" % (d, tmp, tmp))
        if b.returncode: return sid, "does not build: " + b.stdout[-800:]
        t = sh("sed 's#/repo#%s#g; s#/opt/vp/build.sh#%s/build.sh#' /opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/o.json" % (d, tmp, tmp, tmp, tmp))
        base = json.load(open("/opt/vp/BASELINE.json"))
        try: o = json.load(open(tmp + "/o.json"))
        except Exception as e: return sid, "no test result " + t.stdout[-300:] + t.stderr[-300:]
        stable = next(v for k, v in base.items() if isinstance(v, list))
        passed = set(o.get("passed") or o.get("pass") or [])
        miss = [x for x in stable if x not in passed]
        if miss: return sid, "TESTS FAIL: %s" % miss[:5]
        r1 = sh("bash %s/demo.sh" % out, cwd=d)
        r0 = sh("bash %s/demo.sh" % out, cwd="/repo")
        if r0.returncode != 0: return sid, "demo fails unpatched rc=%d: %s" % (r0.returncode, (r0.stdout + r0.stderr)[-1500:])
        if r1.returncode == 0: return sid, "demo passes patched"
        if r1.returncode == 3: return sid, "demo does not compile patched"
        return sid, "ok   " + ((r1.stdout + r1.stderr).strip().splitlines() or ["rc %d" % r1.returncode])[0][:110]
    finally: shutil.rmtree(tmp)
sel = [s for s in SPECS if not sys.argv[1:] or any(s["id"].startswith(a) for a in sys.argv[1:])]
with ThreadPoolExecutor(4) as ex:
    for sid, msg in ex.map(one, sel): print("%-28s %s" % (sid, msg), flush=True)
