#!/usr/bin/env python3
"""Reduce a failing case of the model fuzzer: ddmin over its steps.
usage: reduce.py BINARY profile=.. seed=.. first=.. n=1"""
import os, re, subprocess, sys, tempfile
cmd = sys.argv[1:]
tmp = tempfile.mkdtemp(prefix="vfred")
os.environ.setdefault("VF_SCRATCH", "/dev/shm")
def run(skip):
    f = os.path.join(tmp, "skip")
    open(f, "w").write("\n".join(map(str, skip)))
    try:
        p = subprocess.run(cmd + ["skip=@" + f], capture_output=True, text=True, timeout=60, errors="replace")
    except subprocess.TimeoutExpired:
        return "TIMEOUT", ""
    m = re.findall(r"^FAIL (\S+)", p.stdout, re.M)
    if m:
        return m[0], p.stdout
    if p.returncode < 0 or "ERROR: AddressSanitizer" in p.stderr or "runtime error" in p.stderr:
        return "crash%d" % p.returncode, p.stdout + p.stderr
    return None, p.stdout
sig, out = run([])
if not sig:
    print("does not fail"); sys.exit(1)
last = int((re.findall(r"failed at step (\d+)", out) or ["2000"])[0])
keep = list(range(1, last + 1))
allsteps = set(keep)
n = 2
while len(keep) > 1:
    chunk = max(1, len(keep) // n)
    done = False
    for i in range(0, len(keep), chunk):
        c = keep[:i] + keep[i + chunk:]
        s, o = run(sorted(allsteps - set(c)))
        if s == sig:
            keep = c; out = o; n = max(2, n - 1); done = True
            break
    if not done:
        if chunk == 1:
            break
        n = min(len(keep), n * 2)
s, out = run(sorted(allsteps - set(keep)))
open(os.environ.get("VF_SKIP", os.path.join(tmp, "skip.final")),"w").write("\n".join(map(str,sorted(allsteps-set(keep)))))
print("\n".join(l for l in out.splitlines() if not l.startswith(("HASH", "COUNT"))))
