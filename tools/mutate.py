#!/usr/bin/env python3
"""Regression driver for the analyzer: applies source edits to scratch copies of
/repo and compares the analyzer's verdicts with the expected ones.
usage: mutate.py MUTANTS.py [name-substring]     (scratch copies under /tmp/mut)"""
import sys, subprocess, shutil, os, re, importlib.util
from concurrent.futures import ThreadPoolExecutor
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
sel = sys.argv[2] if len(sys.argv) > 2 else ""
AN = os.environ.get("AN", "/tmp/an")
BASE = "/tmp/mut/%d" % os.getpid()
KNOWN = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../known_findings.txt")).read()
def one(arg):
    i, (name, edits, expect) = arg
    D = "%s-%d" % (BASE, i); V = D + "-v"
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D); os.makedirs(V, exist_ok=True)
    open(V + "/known_findings.txt", "w").write(KNOWN)
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", D])
        for f, old, new in edits:
            p = os.path.join(D, f); s = open(p).read()
            if old not in s: return 1, "BROKEN   %s pattern not found in %s: %r" % (name, f, old)
            s = s.replace(old, new, 1); open(p, "w").write(s)
        ids = os.environ.get("PROP", "all").split()
        if os.environ.get("FAST"):  # only the expected properties, or $FAST for behaviour-preserving edits
            ids = (list(expect) if isinstance(expect, (list, tuple)) else [expect]) if expect else os.environ["FAST"].split()
        out, err, rc = "", "", 0
        for x in ids:
            r = subprocess.run([AN, "check", x, D, V], capture_output=True, text=True)
            out += r.stdout; err += r.stderr; rc = max(rc, r.returncode)
            if expect and os.environ.get("FAST") and "VIOLATION property=" + x in r.stdout: break
        r = subprocess.CompletedProcess([], rc, out, err)
    finally:
        shutil.rmtree(D, ignore_errors=True); shutil.rmtree(V, ignore_errors=True)
    viol = sorted(set(re.findall(r"VIOLATION property=(\w+)", r.stdout)))
    und = sorted(set(re.findall(r"^UNDECIDED.*$", r.stdout, re.M)))
    if "the working tree does not type-check" in r.stdout: return 1, "NOCOMPILE %s %s" % (name, r.stdout[:300])
    if r.returncode not in (0, 1): return 1, "CRASH %s %s" % (name, r.stderr[-2000:])
    want = [p for p in (expect if isinstance(expect, (list, tuple)) else [expect]) if p]
    okk = any(w in viol for w in want) if want else not viol
    out = "%s %s viol=%s %s want=%s" % (("ok     " if okk else "MISSED ") if want else ("quiet  " if okk else "ALARM  "), name, viol, ("undec=%d" % len(und)) if und else "", want)
    if not okk or os.environ.get("V"):
        out += "\n" + "\n".join(l for l in r.stdout.split("\n") if "rule " in l or "UNDECIDED" in l or "panic" in l)[:3000] + "\n" + r.stderr[-1500:]
    return (not okk), out
bad = 0
with ThreadPoolExecutor(int(os.environ.get("J", "5"))) as ex:
    for b, out in ex.map(one, enumerate([x for x in m.MUTANTS if not sel or sel in x[0]])):
        bad += bool(b); print(out, flush=True)
print("bad:", bad)
sys.exit(1 if bad else 0)
