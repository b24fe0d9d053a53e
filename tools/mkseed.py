#!/usr/bin/env python3
"""Creates and confirms planted bugs: mkseed.py seeds/FILE.py [id-substring] [--create-only]
Each definition: (id, property, needs, what_it_breaks, [(file, old, new)...], demo_test.go source, package dir, optional demo.sh)"""
import sys, os, subprocess, json, shutil, tempfile, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
sel = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("--") else ""
DEMO = '''#!/bin/bash
# runs demo_test.go as an in-package test of %(pkg)s through an overlay
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root GOROOT=/opt/veriftools/go1.23.12
export PATH="$GOROOT/bin:$PATH" GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$t/o.json"
timeout 200 go test -overlay "$t/o.json" -run '^TestDemo' -count=1 -vet=off %(flags)s ./%(pkg)s
'''
GEN = '''#!/bin/bash
# generates code for the service in service.go with the generator of the current tree, in a scratch copy, and tests it
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=/root GOROOT=/opt/veriftools/go1.23.12
export PATH="$GOROOT/bin:$PATH" GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir "$t/gotsrpc"
tar -c --exclude=./.git --exclude=node_modules --exclude=./example . | tar -x -C "$t/gotsrpc" || exit 3
mkdir -p "$t/gotsrpc/zzdemo/client"
(cd "$here" && for f in *; do case "$f" in *.go|*.yml|*.sh) [ "$f" = demo.sh ] || cp "$f" "$t/gotsrpc/zzdemo/";; esac; done; for d in */; do [ -d "$d" ] && cp -r "$d" "$t/gotsrpc/zzdemo/"; done)
cd "$t/gotsrpc" || exit 3
go build -o "$t/gen" ./cmd/gotsrpc || exit 3
cd zzdemo || exit 3
%(run)s
'''
RUN = '''timeout 60 "$t/gen" gotsrpc.yml >"$t/log" 2>&1 || { cat "$t/log"; exit 1; }
timeout 200 go test -run '^TestDemo' -count=1 -vet=off .'''
bad = 0
for d in m.SEEDS:
    if sel and sel not in d["id"]: continue
    D = os.path.join(V, "seeded", d["id"]); shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        for x in ("a", "b"): os.makedirs(tmp + "/" + x)
        for f in sorted(set(e[0] for e in d["edits"])):
            for x in ("a", "b"):
                os.makedirs(os.path.dirname(os.path.join(tmp, x, f)), exist_ok=True)
                shutil.copy(os.path.join("/repo", f), os.path.join(tmp, x, f))
        for f, old, new in d["edits"]:
            p = os.path.join(tmp, "b", f); s = open(p).read()
            assert s.count(old) >= 1, (d["id"], f, old)
            open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp, capture_output=True, text=True)
        out = r.stdout
        open(D + "/patch.diff", "w").write(out)
    finally:
        shutil.rmtree(tmp)
    for n, s in d.get("files", {}).items():
        os.makedirs(os.path.dirname(os.path.join(D, n)), exist_ok=True); open(os.path.join(D, n), "w").write(s)
    if d.get("gen"):
        open(D + "/demo.sh", "w").write(GEN % {"run": d.get("run", RUN)})
    else:
        open(D + "/demo_test.go", "w").write(d["test"])
        open(D + "/demo.sh", "w").write(DEMO % {"pkg": d.get("pkg", "."), "flags": d.get("flags", "")})
    os.chmod(D + "/demo.sh", 0o755)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(D + "/meta.json", "w"), indent=1)
    if "--create-only" in sys.argv: continue
    def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, errors="replace", **k)
    res = {}
    r = sh("bash", D + "/demo.sh", cwd="/repo"); res["demo clean"] = r.returncode
    if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:])
    try:
        r = sh("git", "-C", "/repo", "apply", D + "/patch.diff"); res["apply"] = r.returncode
        if r.returncode: print(r.stderr)
        r = sh("bash", "/opt/vp/build.sh"); res["build"] = r.returncode
        if r.returncode: print(r.stderr[-1500:])
        r = sh("bash", D + "/demo.sh", cwd="/repo"); res["demo bug"] = r.returncode; demo = r.stdout
        sh("bash", "/opt/vp/test.sh", "/tmp/seed.json")
        js = json.load(open("/tmp/seed.json")); stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        txt = json.dumps(js)
        passed = js.get("passed", js.get("pass", []))
        res["tests failing"] = [t for t in stable if t not in passed]
        r = sh("bash", os.path.join(V, "run.sh"), d["property"])
        res["caught"] = r.returncode == 1 and "VIOLATION property=" + d["property"] in r.stdout
        if not res["caught"]: print(r.stdout[-1500:])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    good = res["demo clean"] == 0 and res["apply"] == 0 and res["build"] == 0 and res["demo bug"] not in (0, None) and not res["tests failing"]
    if d.get("compiles", True) and "build failed" in demo or "setup failed" in demo: good = False
    bad += not (good and res["caught"])
    print("GOOD " if good else "BAD  ", "caught" if res["caught"] else "MISSED", d["id"], res if not good else "", flush=True)
print("bad:", bad)
