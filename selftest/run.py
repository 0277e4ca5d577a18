#!/usr/bin/env python3
"""Runs the analyser on edited copies of /repo.

usage: run.py [-p C12,C13] [-k substring] [-j 6]
Every case of cases.py is a list of textual edits with the properties that must
report it ([] = behaviour is unchanged, nothing may be reported). Copies live in
a scratch directory that is removed. Not part of the registered checks.
"""
import argparse, importlib.util, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("cases", here + "/cases.py"); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ap = argparse.ArgumentParser(); ap.add_argument("-p"); ap.add_argument("-k", default=""); ap.add_argument("-j", type=int, default=7); ap.add_argument("-b", default="/verif/bin/artcheck"); ap.add_argument("-v", action="store_true"); ap.add_argument("-t", action="store_true")
a = ap.parse_args()
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
tmp = tempfile.mkdtemp(prefix="selftest")
base = tmp + "/base"; os.mkdir(base) # the committed tree: /repo itself may carry a planted bug meanwhile
subprocess.run("git -C /repo archive HEAD | tar x -C " + base, shell=True, check=True)
def run(c):
    name, edits, want = c
    d = f"{tmp}/{name}"; shutil.copytree(base, d)
    try:
        for f, old, new in edits:
            p = f"{d}/{f}"; s = open(p).read() if os.path.exists(p) else ""
            if old == "" : s = s + new
            elif s.count(old) < 1: return name, want, "EDIT DOES NOT APPLY: " + old[:60], set()
            else: s = s.replace(old, new, 1)
            open(p, "w").write(s)
        b = subprocess.run(["go", "build", "./..."], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode: return name, want, "DOES NOT BUILD " + b.stderr[:300], set()
        tst = ""
        if a.t and want:
            t = subprocess.run(["go", "test", "./..."], cwd=d, env=env, capture_output=True, text=True)
            if t.returncode: tst = " (existing tests fail)"
        o = subprocess.run([a.b, "-repo", d, "-verif", d + "/ev"] + (a.p.split(",") if a.p else ["all"]), capture_output=True, text=True)
        got = set(re.findall(r"VIOLATION property=(\w+)", o.stdout))
        extra = tst
        if o.returncode not in (0, 1): extra += " EXIT %d %s" % (o.returncode, (o.stdout + o.stderr)[-500:])
        if a.v or (not want and got): extra += "\n" + "\n".join("      " + l[:260] for l in o.stdout.splitlines() if not l.startswith("property ") and not l.startswith("VIOLATION"))[:2600]
        return name, want, extra, got
    finally:
        shutil.rmtree(d, ignore_errors=True)
cs = [c for c in m.CASES if any(k in c[0] for k in a.k.split(",")) or not a.k]
if a.p: cs = [c for c in cs if not c[2] or set(c[2]) & set(a.p.split(","))]
bad = 0
with ThreadPoolExecutor(a.j) as ex:
    for name, want, extra, got in ex.map(run, cs):
        w = set(want)
        if a.p: w &= set(a.p.split(","))
        ok = (got >= w and got) if want else not got
        if extra.startswith(("EDIT", "DOES")): ok = False
        bad += not ok
        print(("ok   " if ok else "FAIL "), name, "want", ",".join(sorted(w)) or "quiet", "got", ",".join(sorted(got)) or "quiet", extra if (extra and (not ok or a.v or "EXIT" in extra or "tests" in extra)) else "", flush=True)
shutil.rmtree(tmp, ignore_errors=True)
print("%d cases, %d unexpected" % (len(cs), bad))
sys.exit(bad > 0)
